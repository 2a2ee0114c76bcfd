from lib import *
import re

RULE = ("every terminal class with many parameters x texts over letters, blanks, line breaks and digits x every "
        "position including the end, against definitions written out character by character; non-trivial: a match, "
        "keyed by terminal, text, position")

F = Fail()
IDENT = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_$")


def lit(m):
    return lambda t, p: Ok(p, p + len(m), [m]) if t[p:p + len(m)] == m else F


def fold(a, b):
    return len(a) == len(b) and all(x == y or x.lower() == y or x.upper() == y or x in (y.lower(), y.upper()) for x, y in zip(a, b))


def clit(m):
    return lambda t, p: Ok(p, p + len(m), [m]) if fold(t[p:p + len(m)], m) else F


def kw(m, ident=IDENT, caseless=False):
    def f(t, p):
        s = t[p:p + len(m)]
        if (fold(s, m) if caseless else s == m):
            n = p + len(m)
            # the end of the text, or of its last line, is always a boundary
            if n >= len(t) or t[n] not in ident or (n == len(t) - 1 and t[n] == "\n"):
                return Ok(p, n, [m])
        return F
    return f


def any_char(t, p):
    return Ok(p, p + 1, [t[p]]) if p < len(t) else F


def run_of(first, body, lo, hi):
    def f(t, p):
        n = p
        while n < len(t) and n - p < hi and (t[n] in first if n == p else t[n] in body):
            n += 1
        return Ok(p, n, [t[p:n]]) if n - p >= lo else F
    return f


def edge(t, n):
    """between a letter of a word and something else"""
    is_w = lambda k: 0 <= k < len(t) and (t[k].isalnum() or t[k] == "_")
    return is_w(n - 1) != is_w(n)


def whole(first, body, lo, hi):
    """as run_of, nothing of a word directly before or after it"""
    def f(t, p):
        o = run_of(first, body, lo, hi)(t, p)
        n = o.end if isinstance(o, Ok) else p
        while n - p >= lo and not edge(t, n):
            n -= 1
        return Ok(p, n, [t[p:n]]) if n - p >= lo and edge(t, p) else F
    return f


def not_in(chars, lo, hi):
    def f(t, p):
        n = p
        while n < len(t) and n - p < hi and t[n] not in chars:
            n += 1
        return Ok(p, n, [t[p:n]]) if n - p >= lo else F
    return f


def close(m, k):
    def f(t, p):
        s = t[p:p + len(m)]
        if len(s) == len(m) and sum(a != b for a, b in zip(s, m)) <= k:
            return Ok(p, p + len(m), [s])
        return F
    return f


def zero(pred, toks=()):
    return lambda t, p: Ok(p, p, list(toks)) if pred(t, p) else F


def line_end(t, p):
    """\\r? then a line break or the end of the text (a line break may follow the end)"""
    q = p
    if t[q:q + 1] == "\r" and (t[q + 1:q + 2] == "\n" or q + 1 == len(t)):
        q += 1
    if t[q:q + 1] == "\n":
        return Ok(p, q + 1, ["\n"])
    return Ok(p, q, ["\n"]) if q == len(t) else F


def string_end(t, p):
    """only line breaks remain"""
    rest = t[p:]
    return Ok(p, None, []) if re.sub("\r\n|\n", "", rest) == "" else F


def word_start(chars):
    return zero(lambda t, p: p < len(t) and t[p] in chars and (p == 0 or t[p - 1] not in chars))


def word_end(chars):
    return zero(lambda t, p: p > 0 and t[p - 1] in chars and (p >= len(t) or t[p] not in chars))


INF = 10 ** 9
TERMS = [
    ('Literal("a")', lit("a")), ('Literal("ab")', lit("ab")), ('Literal("a b")', lit("a b")), ('Literal("\\n")', lit("\n")), ('Literal(".")', lit(".")),
    ('Literal("a.b")', lit("a.b")), ('Literal("(")', lit("(")), ('Literal("aab")', lit("aab")),
    ('CaselessLiteral("aB")', clit("aB")), ('CaselessLiteral("A")', clit("A")), ('CaselessLiteral("a.")', clit("a.")), ('CaselessLiteral("1a")', clit("1a")),
    ('Keyword("a")', kw("a")), ('Keyword("ab")', kw("ab")), ('Keyword("ab", ident_chars="ab")', kw("ab", set("ab"))), ('Keyword("a", ident_chars="1.")', kw("a", set("1."))),
    ('Keyword("Ab", caseless=True)', kw("Ab", caseless=True)), ('CaselessKeyword("a")', kw("a", caseless=True)), ('Keyword("a", ident_chars="b", caseless=True)', kw("a", set("bB"), True)),
    ('AnyChar()', any_char), ('Char("a")', run_of("a", "a", 1, 1)), ('Char("ab.")', run_of("ab.", "", 1, 1)), ('Char(exclude="a\\n")', not_in("a\n", 1, 1)),
    ('Char("abc", exclude="b")', run_of("ac", "", 1, 1)),
    ('Word("ab")', run_of("ab", "ab", 1, INF)), ('Word("a", "b1")', run_of("a", "b1", 1, INF)), ('Word("ab", min=2)', run_of("ab", "ab", 2, INF)),
    ('Word("ab", max=2)', run_of("ab", "ab", 1, 2)), ('Word("ab", min=2, max=3)', run_of("ab", "ab", 2, 3)), ('Word("ab", exact=2)', run_of("ab", "ab", 2, 2)),
    ('Word("a", "ab", max=3)', run_of("a", "ab", 1, 3)), ('Word("a", "b", exact=1)', run_of("a", "b", 1, 1)), ('Word("a", "b", min=3)', run_of("a", "b", 3, INF)),
    ('Word("a", "b", min=2, max=2)', run_of("a", "b", 2, 2)), ('Word("ab1", exclude="b")', run_of("a1", "a1", 1, INF)),
    ('Word("ab", as_keyword=True)', whole("ab", "ab", 1, INF)), ('Word("a", "b1", as_keyword=True)', whole("a", "b1", 1, INF)), ('Word("ab", max=2, as_keyword=True)', whole("ab", "ab", 1, 2)),
    ('Word("a.", "b.", as_keyword=True)', whole("a.", "b.", 1, INF)), ('Word("ab", min=2, as_keyword=True)', whole("ab", "ab", 2, INF)), ('Char("ab.", as_keyword=True)', whole("ab.", "", 1, 1)),
    ('CharsNotIn("a")', not_in("a", 1, INF)), ('CharsNotIn("a \\n")', not_in("a \n", 1, INF)), ('CharsNotIn("ab", min=2)', not_in("ab", 2, INF)),
    ('CharsNotIn("a", max=2)', not_in("a", 1, 2)), ('CharsNotIn("b.", exact=2)', not_in("b.", 2, 2)), ('CharsNotIn("a", min=2, max=3)', not_in("a", 2, 3)),
    ('CloseMatch("ab", 1)', close("ab", 1)), ('CloseMatch("aba", 2)', close("aba", 2)), ('CloseMatch("aab", 0)', close("aab", 0)), ('CloseMatch("a", 1)', close("a", 1)), ('CloseMatch("abab")', close("abab", 1)),
    ('White(" ")', run_of(" ", " ", 1, INF)), ('White()', run_of(" \t\r\n", " \t\r\n", 1, INF)), ('White(" ", min=2)', run_of(" ", " ", 2, INF)),
    ('White(" \\n", max=2)', run_of(" \n", " \n", 1, 2)), ('White(" ", exact=2)', run_of(" ", " ", 2, 2)), ('White(" \\r", min=2, max=3)', run_of(" \r", " \r", 2, 3)),
    ('Empty()', zero(lambda t, p: True)), ('NoMatch()', zero(lambda t, p: False)),
    ('StringStart()', zero(lambda t, p: p == 0)), ('StringEnd()', string_end),
    ('LineStart()', zero(lambda t, p: p == 0 or t[p - 1] == "\n")), ('LineEnd()', line_end),
    ('WordStart("ab")', word_start("ab")), ('WordEnd("ab")', word_end("ab")), ('WordStart("a1.")', word_start("a1.")), ('WordEnd("a1.")', word_end("a1.")),
]
REFS = dict(TERMS)


@case
def terminal(h, src, texts):
    e = build(src)
    ref = REFS[src]
    for how, x in (("plain", e), ("named", build(src)("n")), ("streamlined", build(src).streamline())):
        for t in texts:
            for p in range(len(t) + 1):
                want = ref(t, p)
                got = attempt(x, t, p)
                h.count((src, t, p) if isinstance(want, Ok) else None)
                if isinstance(want, Ok) and want.end is None and isinstance(got, Ok):
                    want = Ok(p, got.end if p <= got.end <= len(t) else -1, [])
                if not same(got, want):
                    return "%s (%s) at %d of %r: got %r, expected %r" % (src, how, p, t, got, want)


@case
def spans(h, kind, first, body, exclude, lo, hi, texts):
    """any characters, any bounds: a word, its characters and those left out; runs without some characters; white space"""
    bounds = {}
    if lo != 1:
        bounds["min"] = lo
    if hi is not None:
        bounds["max"] = hi
    if lo == hi and lo > 1:
        bounds = {"exact": lo}
    most = INF if hi is None else hi
    if kind == "Word":
        args = (first,) if body is None else (first, body)
        if exclude:
            bounds["exclude"] = exclude
        b = first if body is None else body
        ref = run_of([c for c in first if c not in exclude], [c for c in b if c not in exclude], lo, most)
    elif kind == "CharsNotIn":
        args, ref = (first,), not_in(first, lo, most)
    else:
        args, ref = (first,), run_of(first, first, lo, most)
    e = ENV[kind](*args, **bounds)
    for t in texts:
        for p in range(len(t) + 1):
            want = ref(t, p)
            got = attempt(e, t, p)
            h.count((kind, args, repr(bounds), t, p) if isinstance(want, Ok) else None)
            if not same(got, want):
                return "%s%r %r at %d of %r: got %r, expected %r" % (kind, args, bounds, p, t, got, want)


@case
def close_match_names(h, m, k, texts):
    e = ENV["CloseMatch"](m, k)
    for t in texts:
        for p in range(len(t) + 1):
            o = attempt(e, t, p)
            if isinstance(o, Ok):
                h.count((m, k, t, p))
                miss = [i for i, (a, b) in enumerate(zip(t[p:], m)) if a != b]
                try:
                    got = o.raw["mismatches"]
                    got = [got] if isinstance(got, int) else list(got)
                    orig = o.raw["original"]
                except Exception as x:
                    return "CloseMatch(%r,%d) at %d of %r: %r" % (m, k, p, t, x)
                if got != miss or orig != m:
                    return "CloseMatch(%r,%d) at %d of %r: mismatches %r, original %r; expected %r" % (m, k, p, t, got, orig, miss)


def main(h):
    rng = h.rng
    base = all_texts("ab ", 3) + all_texts("a\n\r", 3) + all_texts("a1.", 3) + all_texts("aAB", 3)
    for s, _ in TERMS:
        h.run(terminal, s, base)
    for m, k in (("ab", 1), ("aba", 2), ("aab", 0), ("abab", 3)):
        h.run(close_match_names, m, k, all_texts("ab", 5))
    for _ in h.loop(1500):
        kind = rng.choice(["Word", "Word", "CharsNotIn", "White"])
        chars = " \t\r\n" if kind == "White" else "ab1.-^]\\["
        some = lambda: "".join(rng.sample(chars, rng.choice([1, 2, 2, 3])))
        first = some()
        body = some() if kind == "Word" and rng.random() < 0.6 else None
        exclude = ""
        if kind == "Word" and rng.random() < 0.3:
            # something is left of both
            exclude = "".join(c for c in some() if c != first[0] and (body is None or c != body[0]))
        lo = rng.choice([1, 1, 1, 2, 3, 4])
        hi = rng.choice([None, None, lo, lo + 1, lo + 2])
        near = first + (body or "") + exclude
        h.run(spans, kind, first, body, exclude, lo, hi,
              ["".join(rng.choice(near if rng.random() < 0.85 else chars + "c ") for _ in range(rng.randrange(9))) for _ in range(5)])
    for _ in h.loop(6000):
        s, _ = rng.choice(TERMS)
        h.run(terminal, s, [rand_text(rng, "ab \n\r1.AB(", 9) for _ in range(14)])
