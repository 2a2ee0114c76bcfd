from lib import *

RULE = ("match-all of 2..4 elements (single, optional with and without default, one-or-more, named, ambiguous) by "
        "class, operator and streamlined x texts (permutations, omissions, repetitions of the parts) x positions, "
        "against taking the first remaining element that matches; non-trivial: a match, keyed by grammar, text, position")

WS = " \n\r\t"


def skip(t, i):
    while i < len(t) and t[i] in WS:
        i += 1
    return i


def ref(elems, t, p):
    """elems: [(element, required, how often it may be taken)]"""
    taken = [0] * len(elems)
    todo = list(range(len(elems)))
    at = p
    order = []
    while True:
        for i in todo:
            o = attempt(elems[i][0], t, at)
            if isinstance(o, Other):
                return o
            if isinstance(o, Ok) and o.end != at:
                order.append((i, o))
                taken[i] += 1
                if taken[i] >= elems[i][2]:
                    todo.remove(i)
                at = skip(t, o.end)
                break
        else:
            break
    todo = [i for i in todo if not taken[i]]
    if any(elems[i][1] for i in todo):
        return Fail()
    toks = []
    end = order[-1][1].end if order else p
    start = order[0][1].start if order else None
    for i, o in order:
        toks += o.toks
    for i in todo:
        o = attempt(elems[i][0], t, at)
        if not isinstance(o, Ok):
            return o
        toks += o.toks
        end = max(end, o.end)
        if start is None:
            start = o.start
    return Ok(p if start is None else start, (end, at), toks)


ELEMS = [
    ('Literal("a")', 1), ('Literal("b")', 1), ('Literal("c")', 1), ('Literal("ab")', 1), ('Word("ab")', 1), ('Char("abc")', 1),
    ('Keyword("a")', 1), ('Literal("c")("n")', 1), ('Group(Literal("a") + "c")', 1), ('(Literal("b") + "a")', 1),
    ('Optional("a")', 0), ('Optional("b", default="B")', 0), ('Optional("c", default="C")', 0), ('Optional("ab")("m")', 0),
    ('OneOrMore("a")', 1), ('OneOrMore(Literal("c"))', 1), ('ZeroOrMore("b")', 0), ('ZeroOrMore("c")', 0),
    ('Many("a", min_match=2)', 1), ('(Literal("a") | "b")', 1), ('Literal("b").suppress()', 1), ('Forward(Literal("c"))', 1),
    ('(Literal("c") * (1, 2))', 1), ('Combine(Literal("a") + "b")', 1), ('Word("abc", exact=2)', 1),
]


def takes(s):
    """single elements once; a repetition may be taken again, up to its maximum"""
    if s.startswith(("OneOrMore", "ZeroOrMore", "Many")):
        return 10 ** 9
    return 2 if "* (1, 2)" in s else 1


@case
def match_all(h, srcs, req, how, texts):
    try:
        elems = [(build(s), r, takes(s)) for s, r in zip(srcs, req)]
        es = [build(s) for s in srcs]
        if how in ("ops", "texts"):
            if how == "texts":
                es = plain_texts(srcs, es)
            real = es[0]
            for e in es[1:]:
                real = real & e
            real = real.streamline()
        else:
            real = ENV["MatchAll"](es)
            if how == "stream":
                real = real.streamline()
            elif how == "group":
                real = ENV["Group"](real).streamline()
    except Exception:
        return
    for t in texts:
        for p in range(len(t) + 1):
            want = ref(elems, t, p)
            if isinstance(want, Other):
                continue
            got = attempt(real, t, p)
            h.count((tuple(srcs), t, p) if isinstance(want, Ok) else None)
            if isinstance(want, Ok) and isinstance(got, Ok):
                # trailing white space belongs to a missing optional element
                want.end = got.end if got.end in want.end else want.end[0]
                if how == "group":
                    want.toks = [("G", want.toks)]
            if not same(got, want):
                return "match-all of %s (%s) at %d of %r: got %r, expected %r" % (srcs, how, p, t, got, want)


def main(h):
    rng = h.rng
    parts = ["a", "b", "c", "ab", "ba", "ac", "aa", "bb", "cc", " ", "", "ca"]
    for _ in h.loop(2400):
        n = rng.choice([2, 2, 3, 3, 4])
        sel = [rng.choice(ELEMS) for _ in range(n)]
        texts = []
        for _ in range(16):
            texts.append(rng.choice(["", " "]).join(rng.choice(parts) for _ in range(rng.randrange(1, 6)))[:10])
        h.run(match_all, [s for s, _ in sel], [r for _, r in sel], rng.choice(["class", "ops", "texts", "stream", "group"]), texts)
