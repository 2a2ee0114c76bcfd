from lib import *

RULE = ("sequences of 1..4 random elements (nested sequences, zero-width elements, look-behinds, optional elements, "
        "error stops) x whitespace definitions x texts x positions, against the composition of the elements' own "
        "matches; non-trivial: a match, keyed by grammar, text, position")

WS = [" ", "", " b", "\n", " \n"]


def skip(ws, text, i):
    while i < len(text) and text[i] in ws:
        i += 1
    return i


def is_behind(e):
    return isinstance(e, ENV["PrecededBy"])


def absent(o):
    """an optional element or a repetition without minimum that matched nothing"""
    t = o.raw.type
    return isinstance(t, ENV["Many"]) and t.parser_config.min_match == 0 and not o.raw


def ref_seq(parts, ws, text, pos):
    """
    parts: [(source, real element)]
    -> outcome; .loose when an inner sequence matched nothing, after whitespace: streamlined, its optional elements
    become the outer's own, which then ends before that whitespace (the known finding of C22)
    """
    loose = False
    end = pos
    at = pos
    toks = []
    for src, e in parts:
        if src == "-":
            continue
        if end > pos:
            at = end if is_behind(e) else skip(ws, text, end)
        o = attempt(e, text, at)
        if isinstance(o, Other):
            return o
        if isinstance(o, Fail):
            return o
        toks += o.toks
        if o.end == at and absent(o):
            continue        # nothing was there: does not move the end
        if o.end == at > end and not is_behind(e):
            loose = True
        end = o.end
    out = Ok(pos, end, toks)
    out.loose = loose
    return out


@case
def sequence(h, srcs, ws, how, texts):
    with Whitespace(ws):
        try:
            parts = [(s, None if s == "-" else build(s)) for s in srcs]
            again = [None if s == "-" else build(s) for s in srcs]
            if how == "class":
                from mo_parsing.expressions import And
                real = And([And.SyntaxErrorGuard() if e is None else e for e in again], whitespaces.CURRENT)
            elif how == "stream":
                from mo_parsing.expressions import And
                real = And([And.SyntaxErrorGuard() if e is None else e for e in again], whitespaces.CURRENT).streamline()
            else:
                if how == "texts" and len(srcs) > 1 and "-" not in srcs[:2]:
                    again = plain_texts(srcs, again)
                real = again[0]
                guard = False
                for e in again[1:]:
                    if e is None:
                        guard = True
                    elif guard:
                        real, guard = real - e, False
                    else:
                        real = real + e
        except Exception:
            return
    for t in texts:
        for p in range(len(t) + 1):
            want = ref_seq(parts, ws, t, p)
            if isinstance(want, Other):
                continue
            if how != "class" and isinstance(want, Ok) and want.loose:
                continue
            got = attempt(real, t, p)
            h.count((tuple(srcs), ws, t, p) if isinstance(want, Ok) else None)
            if isinstance(want, Ok) and isinstance(got, Ok) and how != "class":
                got.start = want.start
            if not same(got, want):
                return "sequence %s (%s, whitespace %r) at %d of %r: got %r, its elements give %r" % (
                    srcs, how, ws, p, t, got, want)


def elem(rng, first):
    x = rng.random()
    if x < 0.45:
        return rng.choice(LEAVES)
    if x < 0.55 and not first:
        return rng.choice(['PrecededBy("a")', 'PrecededBy(Word("ab"))', 'PrecededBy("b")'])
    if x < 0.65:
        return rng.choice(ZERO)
    if x < 0.8:
        return "%s(%s)" % (rng.choice(["Optional", "ZeroOrMore", "OneOrMore"]), noback(leaf(rng, 0.05)))
    return expr(rng, 2)


def main(h):
    rng = h.rng
    for _ in h.loop(3500):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        srcs = [elem(rng, i == 0) for i in range(n)]
        if n > 1 and rng.random() < 0.1:
            srcs.insert(rng.randrange(1, n), "-")
        how = rng.choice(["class", "stream", "ops", "texts"])
        if "-" in srcs and how not in ("class", "stream") and srcs[-1] == "-":
            continue
        h.run(sequence, srcs, rng.choice(WS), how, texts_for(rng, 16, "ab \n"))
