from lib import *
from c12 import parser_of, skip_ref, text_outcome
from c13 import scan_ref, spans, tokens_of

RULE = ("random grammars x whitespaces x texts x maxsplit x separators kept or not, split and transform_string against "
        "the pieces around the matches of a reference scan; non-trivial: at least one match, keyed by grammar and text")


@case
def splitting(h, src, ws, texts, maxima):
    if ws is None:
        return splitting_(h, src, texts, maxima)
    with Whitespace(ws):
        return splitting_(h, src, texts, maxima)


def flat(toks):
    """tokens as text, groups opened"""
    out = []
    for t in toks:
        if isinstance(t, tuple) and len(t) == 2 and t[0] == "G":
            out.append(flat(t[1]))
        else:
            out.append(str(t))
    return "".join(out)


def splitting_(h, src, texts, maxima):
    g = parser_of(src)
    if g is None:
        return
    e, parser, white = g
    plain = e.streamline()
    for t in texts:
        for maximum in maxima:
            want = scan_ref(plain, white, t, maximum)
            if want is None:
                continue
            h.count((src, t, maximum) if want else None)
            where = "%s over %r (maxsplit=%s, whitespace %r)" % (src, t, maximum, white)
            pieces, last = [], 0
            for o in want:
                pieces.append(t[last:o.start])
                last = o.end
            pieces.append(t[last:])
            kw = {} if maximum is None else {"maxsplit": maximum}
            for who, fn in (("parser", parser.split), ("grammar", e.split)):
                got = text_outcome(lambda: list(fn(t, **kw)))
                if not isinstance(got, Ok) or got.raw != pieces:
                    return "%s: %s splits %r, expected %r" % (where, who, got.raw if isinstance(got, Ok) else got, pieces)
                got = text_outcome(lambda: list(fn(t, include_separators=True, **kw)))
                if not isinstance(got, Ok):
                    return "%s: %s, separators included: %r" % (where, who, got)
                r = got.raw
                if r[::2] != pieces or len(r) != 2 * len(want) + 1:
                    return "%s: %s, separators included, gives pieces %r, expected %r" % (where, who, r[::2], pieces)
                for x, o in zip(r[1::2], want):
                    toks = canon(x) if isinstance(x, ParseResults) else x
                    if toks != canon(o.raw) and toks != o.toks:
                        return "%s: separator %r, expected %r" % (where, toks, o.toks)
                    if isinstance(x, ParseResults) and (x.start, x.end) != (o.start, o.end):
                        return "%s: separator at %r, expected %r" % (where, (x.start, x.end), (o.start, o.end))
                # pieces and matched spans give back the text
                back = pieces[0] + "".join(t[o.start:o.end] + p for o, p in zip(want, r[2::2]))
                if back != t:
                    return "%s: pieces and matches give back %r" % (where, back)
            if maximum is None:
                out = "".join(p + flat(tokens_of(plain, o)) for p, o in zip(pieces, want)) + pieces[-1]
                for who, fn in (("parser", parser.transform_string), ("grammar", e.transform_string)):
                    got = text_outcome(fn, t)
                    if not isinstance(got, Ok) or got.raw != out:
                        return "%s: %s transforms to %r, expected %r" % (where, who, got.raw if isinstance(got, Ok) else got, out)


ACTIONS = [
    'lambda tokens: "<" + "".join(map(str, tokens)) + ">"',
    'lambda tokens: [len(list(tokens)), "x"]',
    'lambda tokens: 7',
    'lambda tokens: []',
    'lambda tokens: ""',
    'lambda tokens: 0',
    'lambda tokens: False',
    'lambda tokens: [0, "", 1.5]',
    'lambda tokens: "\\\\1 $&"',
]


@case
def replacing(h, names, repl, texts, method):
    """a replacement text, its variables filled from the match"""
    parts = [ENV["Optional"](ENV["Word"](chars)(n), NO_WHITESPACE) if maybe else ENV["Word"](chars)(n) for n, chars, maybe in names]
    with NO_WHITESPACE:
        e = parts[0]
        for p in parts[1:]:
            e = e + p
        e = getattr(e, method)("".join(x if i % 2 == 0 else x[0] % x[1] for i, x in enumerate(repl)))
    for t in texts:
        at, values = 0, {}
        for n, chars, maybe in names:
            stop = at
            while stop < len(t) and t[stop] in chars:
                stop += 1
            if stop == at and not maybe:
                values = None
                break
            values[n], at = t[at:stop], stop
        got = attempt(e, t, 0)
        where = "%r, replaced by %r, at the start of %r" % (names, repl, t)
        h.count(where if values else None)
        if values is None:
            if not isinstance(got, Fail):
                return "%s: %r, expected a failure" % (where, got)
            continue
        want = "".join(x if i % 2 == 0 else values.get(x[1], "") for i, x in enumerate(repl))
        if not isinstance(got, Ok) or got.toks != [want] or (got.start, got.end) != (0, at):
            return "%s: %r, expected %r up to %d" % (where, got, want, at)


def main(h):
    rng = h.rng
    for _ in h.loop(900):
        if rng.random() < 0.15:
            ns = rng.sample(["1", "2", "n", "x1", "long", "A", "g", "12", "a_b"], rng.choice([2, 2, 3, 4]))
            names = [(n, rng.choice(["a", "b", "ab", "1 ", "c"]), rng.random() < 0.25) for n in ns]
            if all(m for _, _, m in names):
                names[0] = names[0][:2] + (False,)
            repl = [rng.choice(["", "x", " ", "1", "a-b", "\\", ".\n"])]
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                n = rng.choice(ns)
                repl.append(("\\%s" if len(n) == 1 and (n[0].isdigit() or rng.random() < 0.5) else "\\g<%s>", n))
                repl.append(rng.choice(["", "x", " ", "1", "g<", "a-b", ".\n"]))
            repl = [x if isinstance(x, tuple) or not x.endswith("\\") or len(repl) == 1 else "x" for x in repl]
            h.run(replacing, names, repl, texts_for(rng, 8) + [rand_text(rng, "ab1 c", 8) for _ in range(6)], rng.choice(["replace_with", "sub"]))
            continue
        src = expr(rng, rng.choice([0, 1, 1, 2, 3]), 0.2)
        if rng.random() < 0.5:
            src = "(%s).add_parse_action(%s)" % (src, rng.choice(ACTIONS))
        ts = texts_for(rng, 6) + [rand_text(rng, "ab \n\t", 14)]
        h.run(splitting, src, rng.choice([None, None, None, "", " ", "b "]), ts, [None, rng.choice([0, 1, 1, 2, 3])])
