from lib import *

RULE = ("repetitions of random expressions (also zero-width ones) with bounds 0..4, stop expressions, whitespace "
        "definitions, defaults, through every constructor and operator x texts x positions, against repeated "
        "application of the element; non-trivial: at least one match, keyed by grammar, text, position")

INF = 10 ** 9


def skip(ws, text, i):
    while i < len(text) and text[i] in ws:
        i += 1
    return i


def ref_many(e, lo, hi, stop, ws, t, p):
    n, end, toks, start = 0, p, [], p
    while n < hi:
        if end >= len(t) and n >= lo:
            break
        at = skip(ws, t, end) if n else end
        if stop is not None and isinstance(attempt(stop, t, at), Ok):
            break
        o = attempt(e, t, at)
        if isinstance(o, Other):
            return o
        if isinstance(o, Fail):
            break
        if o.end == o.start:
            if n < lo:
                if not n:
                    start = o.start
                n, end, toks = lo, o.end, toks + o.toks
            break
        if not n:
            start = o.start
        n, end, toks = n + 1, o.end, toks + o.toks
    if n < lo:
        return Fail()
    return Ok(start if n else p, end, toks)


# constructor -> (source template, lo, hi)
FORMS = {
    "ZeroOrMore": lambda lo, hi: ("ZeroOrMore({e})", 0, INF),
    "OneOrMore": lambda lo, hi: ("OneOrMore({e})", 1, INF),
    "Many": lambda lo, hi: ("Many({e}, min_match=%d, max_match=%d)" % (lo, hi), lo, hi),
    "exact": lambda lo, hi: ("Many({e}, exact=%d)" % lo, lo, lo),
    "min": lambda lo, hi: ("Many({e}, min_match=%d)" % lo, lo, INF),
    "star": lambda lo, hi: ("(({e}) * %d)" % max(lo, 1), max(lo, 1), max(lo, 1)),
    "tuple": lambda lo, hi: ("(({e}) * (%d, %d))" % (lo, max(hi, 1)), lo, max(hi, 1)),
    "tupleN": lambda lo, hi: ("(({e}) * (None, %d))" % max(hi, 1), 0, max(hi, 1)),
    "tuple1": lambda lo, hi: ("(({e}) * (%d,))" % lo, lo, INF),
    "rstar": lambda lo, hi: ("(%d * ({e}))" % max(lo, 1), max(lo, 1), max(lo, 1)),
    "slice": lambda lo, hi: ("({e})[%d:%d]" % (lo, max(hi, 1)), lo, max(hi, 1)),
    "slice1": lambda lo, hi: ("({e})[%d:]" % lo, lo, INF),
    "slice2": lambda lo, hi: ("({e})[:%d]" % max(hi, 1), 0, max(hi, 1)),
    "index": lambda lo, hi: ("({e})[%d]" % max(lo, 1), max(lo, 1), max(lo, 1)),
    "dots": lambda lo, hi: ("({e})[%d, ...]" % lo, lo, INF),
    "dots2": lambda lo, hi: ("({e})[..., %d]" % max(hi, 1), 0, max(hi, 1)),
}
STOPS = [None, None, None, 'Literal("b")', 'Literal("ab")', 'Word("b")', 'Char("a")', 'Keyword("a")']


def is_inf(x):
    return x is None or x >= INF


@case
def repetition(h, src, form, lo, hi, stop, ws, streamlined, texts):
    tmpl, lo, hi = FORMS[form](lo, hi)
    with Whitespace(ws):
        try:
            e = build(src)
            real = build(tmpl.format(e=src))
            st = None
            if stop:
                if form not in ("ZeroOrMore", "OneOrMore", "Many", "min", "exact"):
                    return
                st = build(stop)
                real = build(tmpl.format(e=src)[:-1] + ", stop_on=%s)" % stop)
            if streamlined:
                real = real.streamline()
        except Exception:
            return
    for t in texts:
        for p in range(len(t) + 1):
            want = ref_many(e, lo, hi, st, ws, t, p)
            if isinstance(want, Other):
                continue
            got = attempt(real, t, p)
            h.count((src, form, lo, hi, stop, ws, t, p) if isinstance(want, Ok) and want.toks else None)
            if not same(got, want):
                return "%s stop_on=%s whitespace=%r at %d of %r: got %r, repeating the element gives %r" % (
                    tmpl.format(e=src), stop, ws, p, t, got, want)


@case
def bounds_through_sequence(h, src, form, lo, hi, texts):
    """as an element of a larger grammar, through the public entry point"""
    tmpl, lo, hi = FORMS[form](lo, hi)
    try:
        e = build(src)
        real = build("Group(" + tmpl.format(e=src) + ")('x') + StringEnd()")
        f = real.finalize()
    except Exception:
        return
    for t in texts:
        at = skip(" \n\r\t", t, 0)
        want = ref_many(e, lo, hi, None, " \n\r\t", t, at)
        if isinstance(want, Other):
            continue
        if isinstance(want, Ok):
            full = t[skip(" \n\r\t", t, want.end):].strip("\r\n") == ""
        else:
            full = False
        try:
            got = f.parse(t)
            h.count((src, form, t))
            if not full:
                return "%s on %r: accepted %r" % (tmpl.format(e=src), t, list(got))
            if list(got)[:1] and canon(got) != [("G", want.toks)]:
                return "%s on %r: got %r, expected %r" % (tmpl.format(e=src), t, canon(got), [("G", want.toks)])
        except ParseException:
            h.count(None)
            if full:
                return "%s on %r: refused, expected %r" % (tmpl.format(e=src), t, want)


@case
def optional(h, src, default, streamlined, texts):
    try:
        e = build(src)
        real = ENV["Optional"](build(src), default=default) if default is not None else ENV["Optional"](build(src))
        if streamlined:
            real = real.streamline()
    except Exception:
        return
    dflt = [] if default is None else list(default) if isinstance(default, (list, tuple)) else [default]
    for _ in range(2):
        for t in texts:
            for p in range(len(t) + 1):
                o = attempt(e, t, p)
                if isinstance(o, Other):
                    continue
                want = o if isinstance(o, Ok) else Ok(p, p, dflt)
                got = attempt(real, t, p)
                h.count((src, repr(default), t, p))
                if not same(got, want):
                    return "Optional(%s, default=%r) at %d of %r: got %r, expected %r" % (src, default, p, t, got, want)
                if isinstance(got, Ok) and isinstance(o, Fail) and isinstance(got.raw.tokens, list):
                    got.raw.tokens.append("spoiled")        # the caller's copy, not the grammar's


def main(h):
    rng = h.rng
    forms = sorted(FORMS)
    for _ in h.loop(4500):
        x = rng.random()
        src = leaf(rng, 0.1) if x < 0.5 else expr(rng, 2)
        if src.startswith("PrecededBy") or src.startswith("SkipTo"):
            src = 'Literal("a")'
        lo = rng.randrange(4)
        hi = max(1, lo + rng.randrange(3))
        ws = rng.choice([" ", " ", "", " b", "\n "])
        ts = texts_for(rng, 12, "ab \n") + ["a" * rng.randrange(6), "a " * rng.randrange(5), "ab" * rng.randrange(4)]
        h.run(repetition, src, rng.choice(forms), lo, hi, rng.choice(STOPS), ws, rng.random() < 0.5, ts)
        if rng.random() < 0.4:
            h.run(bounds_through_sequence, leaf(rng, 0), rng.choice(forms), lo, hi, ts)
        if rng.random() < 0.4:
            h.run(optional, src, rng.choice([None, None, "d", "", ["x", "y"], ("u",), 0]), rng.random() < 0.5, ts[:8])
