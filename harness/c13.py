from lib import *
from c12 import parser_of, skip_ref, text_outcome

RULE = ("random grammars x whitespaces x texts x max_matches x overlap on/off, scan_string and search_string against a "
        "loop that tries the grammar at every position; non-trivial: a text with at least one match, keyed by grammar, "
        "text, overlap, maximum")


def scan_ref(plain, white, t, maximum=None, overlap=False):
    """-> list of Ok, or None when the grammar does something else than match or fail"""
    out, pos = [], 0
    while pos <= len(t) and (maximum is None or len(out) < maximum):
        start = skip_ref(white, t, pos)
        o = attempt(plain, t, start)
        if isinstance(o, Other):
            return None
        if isinstance(o, Fail):
            pos = start + 1
            continue
        out.append(o)
        pos = o.start + 1 if overlap or o.end <= o.start else o.end
    return out


def spans(ms):
    return [(o.start, o.end) for o in ms]


def tokens_of(plain, o):
    return o.toks if plain.token_name else canon(o.raw)


@case
def scanning(h, src, ws, texts, maxima):
    if ws is None:
        return scanning_(h, src, texts, maxima)
    with Whitespace(ws):
        return scanning_(h, src, texts, maxima)


def scanning_(h, src, texts, maxima):
    g = parser_of(src)
    if g is None:
        return
    e, parser, white = g
    plain = e.streamline()
    for t in texts:
        for overlap in (False, True):
            for maximum in maxima:
                want = scan_ref(plain, white, t, maximum, overlap)
                if want is None:
                    continue
                h.count((src, t, overlap, maximum) if want else None)
                where = "%s over %r (overlap=%s, max=%s, whitespace %r)" % (src, t, overlap, maximum, white)
                kw = {"overlap": overlap}
                if maximum is not None:
                    kw["max_matches"] = maximum
                for who, fn in (("parser", parser.scan_string), ("grammar", e.scan_string)):
                    got = text_outcome(lambda: list(fn(t, **kw)))
                    if not isinstance(got, Ok):
                        return "%s: scanning (%s) gives %r" % (where, who, got)
                    got = got.raw
                    if [(s, n) for r, s, n in got] != spans(want):
                        return "%s: %s scans %r, expected %r" % (where, who, [(s, n) for r, s, n in got], spans(want))
                    for (r, s, n), o in zip(got, want):
                        toks = canon(r) if isinstance(r, ParseResults) else r
                        if toks != tokens_of(plain, o) and toks != canon(o.raw):
                            return "%s: the match at %d has tokens %r, expected %r" % (where, s, toks, canon(o.raw))
                    # the broad facts, not by the reference
                    if len(set((s, n) for r, s, n in got)) != len(got):
                        return "%s: a match is reported twice: %r" % (where, [(s, n) for r, s, n in got])
                    for (r, s, n), (r2, s2, n2) in zip(got, got[1:]):
                        if s2 <= s or (not overlap and s2 < n):
                            return "%s: matches are not in order, or overlap: %r" % (where, [(s, n) for r, s, n in got])
                if not overlap:
                    kw.pop("overlap")
                    for who, fn in (("parser", parser.search_string), ("grammar", e.search_string)):
                        got = text_outcome(fn, t, **kw)
                        if not isinstance(got, Ok):
                            return "%s: searching (%s) gives %r" % (where, who, got)
                        r = got.raw
                        if [(x.start, x.end) for x in r.tokens] != spans(want) or [("G", canon(x)) for x in r.tokens] != [("G", o.toks) for o in want]:
                            return "%s: %s finds %r, the scan gives %r" % (where, who, canon(r), [o.toks for o in want])
                        if want and (r.start, r.end) != (want[0].start, want[-1].end):
                            return "%s: the search result spans %r, its matches %r" % (where, (r.start, r.end), spans(want))


@case
def partial(h, src, texts, k):
    """taking only the first k of a scan, or using the parser while scanning, gives the same matches"""
    g = parser_of(src)
    if g is None:
        return
    e, parser, white = g
    plain = e.streamline()
    for t in texts:
        want = scan_ref(plain, white, t)
        if want is None:
            continue
        got, it = [], parser.scan_string(t)
        for _ in range(k):
            x = next(it, None)
            if x is None:
                break
            got.append(x[1:])
            text_outcome(parser.parse, "zz " + t)
        h.count((src, t, k) if got else None)
        if got != spans(want)[:k]:
            return "%s over %r, parsing something else meanwhile: first %d matches %r, expected %r" % (src, t, k, got, spans(want)[:k])


def main(h):
    rng = h.rng
    for _ in h.loop(1000):
        src = expr(rng, rng.choice([0, 1, 1, 2, 3]), 0.2)
        ts = texts_for(rng, 6) + [rand_text(rng, "ab ", 14)]
        h.run(scanning, src, rng.choice([None, None, None, "", " ", "b "]), ts, [None, rng.choice([0, 1, 1, 2, 3])])
    for _ in h.loop(150):
        h.run(partial, expr(rng, rng.choice([0, 1, 2]), 0.2), texts_for(rng, 5), rng.randrange(1, 4))
