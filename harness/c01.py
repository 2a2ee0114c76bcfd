from lib import *

RULE = ("random grammars (depth<=3, every expression class) x texts (all of length<=4 over 'ab ' sampled, "
        "plus random ones) x every position; non-trivial: a match, keyed by grammar, text, position")


def span_error(o, text, pos):
    if isinstance(o, Other):
        return "neither a result nor a parse failure: " + o.what
    if isinstance(o, Ok):
        if not (isinstance(o.start, int) and isinstance(o.end, int)):
            return "span is not made of integers: %r" % (o,)
        if not pos <= o.start <= o.end <= len(text):
            return "span out of bounds: %d <= %d <= %d <= %d does not hold" % (pos, o.start, o.end, len(text))
    return None


@case
def spans(h, src, texts):
    e = try_build(src)
    if e is None:
        return
    for raw in (e, e.streamline()):
        for t in texts:
            for p in range(len(t) + 1):
                for act in (True, False):
                    o = attempt(raw, t, p, act)
                    h.count((src, t, p) if isinstance(o, Ok) else None)
                    m = span_error(o, t, p)
                    if m:
                        return "%s at position %d of %r: %s" % (src, p, t, m)


@case
def public_spans(h, src, texts):
    """the spans the public entry points report"""
    e = try_build(src)
    if e is None:
        return
    try:
        f = e.finalize()
    except Exception as x:
        if "whitespace" in str(x):      # its parts are made with different whitespace: refused
            return
        raise
    for t in texts:
        try:
            r = f.parse(t)
            if isinstance(r, ParseResults):
                if not 0 <= r.start <= r.end <= len(t):
                    return "%s parse(%r): span %d..%d" % (src, t, r.start, r.end)
        except ParseException:
            pass
        h.count((src, t))


def main(h):
    rng = h.rng
    for s in LEAVES + ZERO + SLOW:
        h.run(spans, s, TEXTS3 + ["\n", "a\n", "\na", "\r\n", "a\r\n\n", "1", "aA"])
    for _ in h.loop(4500):
        d = rng.choice([1, 1, 2, 2, 3])
        s = expr(rng, d, zero=0.25)
        h.run(spans, s, texts_for(rng, 14))
        if rng.random() < 0.2:
            h.run(public_spans, s, texts_for(rng, 10))
