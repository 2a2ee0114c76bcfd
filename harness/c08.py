from lib import *

RULE = ("skip-to of random targets with include, ignore and fail_on, whitespace definitions, alone, streamlined, in "
        "sequences and by '...' x texts x positions, against a scan for the earliest match of the target; "
        "non-trivial: a match that skipped text, keyed by grammar, text, position")


def skip(ws, t, i):
    while i < len(t) and t[i] in ws:
        i += 1
    return i


def ref(e, inc, ign, fail, ws, t, p):
    loc = p
    while loc <= len(t):
        b, last = skip(ws, t, loc), loc
        if fail is not None and isinstance(attempt(fail, t, b), Ok):
            return Fail()
        if ign is not None:
            while True:
                o = attempt(ign, t, b)
                if not isinstance(o, Ok) or o.end <= b:
                    break
                last = o.end
                b = skip(ws, t, o.end)
        o = attempt(e, t, b)
        if isinstance(o, Other):
            return o
        if isinstance(o, Ok):
            toks = [t[p:last]] if t[p:last] else []
            return Ok(p, o.end, toks + o.toks) if inc else Ok(p, b, toks)
        loc = b + 1
    return Fail()


@case
def skip_to(h, src, inc, ign, fail, ws, how, texts):
    try:
        with Whitespace(ws):
            e = build(src)
            g = build(ign) if ign else None
            f = build(fail) if fail else None
            real = ENV["SkipTo"](build(src), include=inc, ignore=build(ign) if ign else None, fail_on=build(fail) if fail else None)
            if how == "stream":
                real = real.streamline()
            elif how == "copy":
                real = real("n")
            elif how == "group":
                real = ENV["And"]([real]).streamline()
    except Exception:
        return
    for t in texts:
        for p in range(len(t) + 1):
            want = ref(e, inc, g, f, ws, t, p)
            if isinstance(want, Other):
                continue
            got = attempt(real, t, p)
            h.count((src, inc, ign, fail, ws, t, p) if isinstance(want, Ok) and want.toks else None)
            if not same(got, want):
                return "SkipTo(%s, include=%r, ignore=%s, fail_on=%s) (%s, whitespace %r) at %d of %r: got %r, expected %r" % (
                    src, inc, ign, fail, how, ws, p, t, got, want)


@case
def ellipsis(h, first, src, texts):
    """first + ... + target"""
    try:
        a, e = build(first), build(src)
        real = build("(%s) + ... + (%s)" % (first, src)).streamline()
    except Exception:
        return
    for t in texts:
        for p in range(len(t) + 1):
            x = attempt(a, t, p)
            if not isinstance(x, Ok):
                want = x
            else:
                at = skip(" \n\r\t", t, x.end) if x.end > p else x.end
                s = ref(e, False, None, None, " \n\r\t", t, at)
                want = s
                if isinstance(s, Ok):
                    at2 = skip(" \n\r\t", t, s.end) if s.end > p else s.end
                    y = attempt(e, t, at2)
                    want = Ok(p, y.end, x.toks + s.toks + y.toks) if isinstance(y, Ok) else y
            if isinstance(want, Other):
                continue
            got = attempt(real, t, p)
            h.count((first, src, t, p) if isinstance(want, Ok) else None)
            if not same(got, want):
                return "%s + ... + %s at %d of %r: got %r, expected %r" % (first, src, p, t, got, want)


TARGETS = ['Literal("b")', 'Literal("ab")', 'Keyword("b")', 'Word("ab", min=2)', 'StringEnd()', 'LineEnd()', 'LineStart()', '(Literal("a") + "b")',
           '(Literal("b") | "ab")', 'Group("b")', 'Literal("b")("n")', 'Empty()', 'NoMatch()', 'Literal("b") / (lambda t: "X")', 'Optional("b")',
           'LookAhead("b")', 'WordEnd("ab")', 'Regex("ba?")', 'Literal("b").suppress()', 'OneOrMore("b")', '~Literal("a")']
IGN = [None, None, None, 'Literal("a")', 'Literal("ab")', 'Literal("a") + "b"', 'Optional("a")', 'Word("1")', 'Regex("ab?")', 'Literal("b")']
FAIL = [None, None, None, 'Literal("1")', 'Literal("aa")', 'LineEnd()', 'Literal("b")', 'Word("ab", min=3)']


def main(h):
    rng = h.rng
    for _ in h.loop(4200):
        src = rng.choice(TARGETS) if rng.random() < 0.75 else expr(rng, 2)
        ts = texts_for(rng, 10, "ab \n1")
        h.run(skip_to, src, rng.random() < 0.4, rng.choice(IGN), rng.choice(FAIL), rng.choice([" ", " \n\r\t", "", "a"]),
              rng.choice(["raw", "stream", "copy", "group"]), ts)
        if rng.random() < 0.1:
            h.run(ellipsis, rng.choice(['Literal("a")', 'Word("ab")', 'Keyword("a")']), rng.choice(['Literal("b")', 'Keyword("b")', 'Literal("1")', 'LineEnd()', 'StringEnd()', 'Group("b")']), ts)
