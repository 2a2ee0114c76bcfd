from lib import *
import re

RULE = ("random character sets from regex-special, control, adjacent and non-ascii characters x all of chr(0..383) and "
        "more; caseless literals against all spellings; words with random first/body sets and limits x texts; "
        "non-trivial: a character or text that matches, keyed by definition and text")

SPECIAL = list("^$.|?*+()[]{}\\-/&~#!\"'%:;<=>@`_, \n\r\t\f\v") + list("abcdABCD0129zZ") + ["\u00e9", "\u00df", "\u0130", "\x00", "\x7f", "\u212a", "\u2028", "\U0001F600"]
CHARS = [chr(i) for i in range(384)] + SPECIAL + ["\u03a3", "\u03c3", "\u03c2"]


def some(rng, n=8):
    k = rng.randrange(1, n)
    if rng.random() < 0.3:      # adjacent runs
        a = rng.randrange(30, 120)
        return "".join(chr(a + i) for i in range(k)) + "".join(rng.choice(SPECIAL) for _ in range(rng.randrange(3)))
    return "".join(rng.choice(SPECIAL) for _ in range(k))


@case
def char_set(h, include, exclude):
    try:
        e = ENV["Char"](include, exclude=exclude) if include else ENV["Char"](exclude=exclude)
    except Exception as x:
        return "Char(%r, exclude=%r): %s" % (include, exclude, x)
    want = set(include) - set(exclude)
    for c in CHARS:
        inside = (c in want) if include else (c not in exclude)
        o = attempt(e, c, 0)
        h.count((include, exclude, c) if inside else None)
        if isinstance(o, Ok) != inside or inside and (o.end, o.toks) != (1, [c]):
            return "Char(%r, exclude=%r) on %r: got %r, in the set: %s" % (include, exclude, c, o, inside)
        o = attempt(e, "a" + c + "b", 1)
        if isinstance(o, Ok) != inside:
            return "Char(%r, exclude=%r) at 1 of %r: got %r, in the set: %s" % (include, exclude, "a" + c + "b", o, inside)


@case
def not_chars(h, chars, lo, hi):
    e = ENV["CharsNotIn"](chars, min=lo, max=hi)
    for c in CHARS:
        for t in (c, c * 2, c * 4, "".join(x + c for x in "ab")):
            n = 0
            while n < len(t) and t[n] not in chars and n < (hi or 10 ** 9):
                n += 1
            want = Ok(0, n, [t[:n]]) if n >= lo else Fail()
            got = attempt(e, t, 0)
            h.count((chars, lo, hi, t) if isinstance(want, Ok) else None)
            if not same(got, want):
                return "CharsNotIn(%r, min=%d, max=%d) on %r: got %r, expected %r" % (chars, lo, hi, t, got, want)


def case_variants(c):
    out = {c}
    if len(c.lower()) == 1:
        out.add(c.lower())
    if len(c.upper()) == 1:
        out.add(c.upper())
    return out if len(c.lower()) == len(c.upper()) == 1 else {c}


@case
def caseless(h, word, texts):
    for src in ("CaselessLiteral(%r)" % word, "Keyword(%r, ident_chars='ab', caseless=True)" % word):
        e = build(src)
        for t in texts:
            want = len(t) >= len(word) and all(x in case_variants(w) for x, w in zip(t, word))
            if want and src.startswith("Keyword"):
                rest = t[len(word):]
                want = not rest or rest == "\n" or rest[0] not in "abAB"
            o = attempt(e, t, 0)
            h.count((src, t) if want else None)
            if isinstance(o, Other) or isinstance(o, Ok) != want or want and (o.end, o.toks) != (len(word), [word]):
                return "%s on %r: got %r, same up to letter case: %s" % (src, t, o, want)


def edge(t, n):
    """between a letter of a word and something else"""
    is_w = lambda k: 0 <= k < len(t) and (t[k].isalnum() or t[k] == "_")
    return is_w(n - 1) != is_w(n)


@case
def word(h, src, first, body, lo, hi, texts):
    e = build(src)
    for t in texts:
        for p in range(min(len(t) + 1, 3)):
            n = p
            while n < len(t) and n - p < hi and (t[n] in first if n == p else t[n] in body):
                n += 1
            if "as_keyword" in src:
                while n - p >= lo and not edge(t, n):
                    n -= 1
            want = Ok(p, n, [t[p:n]]) if n - p >= lo and (edge(t, p) or "as_keyword" not in src) else Fail()
            got = attempt(e, t, p)
            h.count((src, t, p) if isinstance(want, Ok) else None)
            if not same(got, want):
                return "%s at %d of %r: got %r, expected %r" % (src, p, t, got, want)


@case
def keyword(h, m, ident, texts):
    e = ENV["Keyword"](m, ident_chars=ident)
    for t in texts:
        ok = t.startswith(m) and (len(t) == len(m) or t[len(m)] not in ident or t[len(m):] == "\n")
        o = attempt(e, t, 0)
        h.count((m, ident, t) if ok else None)
        if isinstance(o, Other) or isinstance(o, Ok) != ok or ok and (o.end, o.toks) != (len(m), [m]):
            return "Keyword(%r, ident_chars=%r) on %r: got %r, expected %s" % (m, ident, t, o, ok)


@case
def regex_text(h, src, texts):
    """an expression turned into a pattern (used for repetition, stop_on, ignore) means the expression"""
    e = build(src)
    try:
        pattern = e.__regex__()[1]
    except Exception:
        return      # cannot be written as a pattern
    try:
        pattern = re.compile(pattern, re.MULTILINE | re.DOTALL)
    except Exception as x:
        return "the pattern of %s is %r: %s" % (src, pattern, x)
    for t in texts:
        for p in range(len(t) + 1):
            o, f = attempt(e, t, p), pattern.match(t, p)
            h.count((src, t, p) if f else None)
            if isinstance(o, Ok) != bool(f):
                return "%s at %d of %r: %r, its pattern %r: %r" % (src, p, t, o, pattern.pattern, f)


def main(h):
    rng = h.rng
    for c in SPECIAL:
        h.run(char_set, c, "")
        h.run(char_set, "", c)
        h.run(char_set, c + "-", "")
        h.run(char_set, "^" + c, "")
        h.run(caseless, c, [c, c.lower(), c.upper(), c.swapcase(), "", "x", c + "a", c + "c", "\\" + c])
        h.run(keyword, "if", c, ["if", "if" + c, "if ", "ifx", "i", "if\n", "if-", "if]", "if^"])
    for _ in h.loop(5000):
        x = rng.random()
        if x < 0.4:
            h.run(char_set, some(rng) if rng.random() < 0.7 else "", some(rng))
        elif x < 0.5:
            lo = rng.randrange(1, 4)
            h.run(not_chars, some(rng), lo, rng.choice([0, lo, lo + 1, lo + 2]))
        elif x < 0.65:
            w = some(rng, 5)
            h.run(caseless, w, [w, w.lower(), w.upper(), w.swapcase(), w[:-1], w + "a", w + "A", w + " ", "x" + w, w[1:]] +
                  ["".join(rng.choice([c, c.swapcase(), c.upper(), rng.choice(SPECIAL)]) for c in w) for _ in range(12)])
        elif x < 0.9:
            first, body = some(rng, 4), some(rng, 5)
            lo = rng.randrange(1, 4)
            hi = rng.choice([None, lo, lo + 1, lo + 2])
            form = rng.randrange(5)
            ex = rng.choice(["", "", first[0] if len(set(first)) > 1 else "", rng.choice(body), rng.choice(body) + rng.choice(SPECIAL)])
            kw = ("" if not ex else ", exclude=%r" % ex) + ("" if rng.random() < 0.75 else ", as_keyword=True")
            if form == 0:
                body, lo, hi2, src = first, 1, 10 ** 9, "Word(%r%s)" % (first, kw)
            elif form == 1:
                body, hi2, src = first, hi or 10 ** 9, "Word(%r, min=%d, max=%r%s)" % (first, lo, hi, kw)
            elif form == 2:
                hi2, src = hi or 10 ** 9, "Word(%r, %r, min=%d, max=%r%s)" % (first, body, lo, hi, kw)
            elif form == 3:
                hi2, src = lo, "Word(%r, %r, exact=%d%s)" % (first, body, lo, kw)
            else:
                lo, hi2, src = 1, 10 ** 9, "Word(%r, %r%s)" % (first, body, kw)
            f, b = set(first) - set(ex), set(body) - set(ex)
            if not f or not b:
                continue
            pool = list(f) + list(b) + list(b) + list(ex) + [rng.choice(SPECIAL)]
            h.run(word, src, "".join(sorted(f)), "".join(sorted(b)), lo, hi2, [rand_text(rng, pool, 7) for _ in range(40)])
        else:
            h.run(keyword, rng.choice(["if", "a.b", "x+", "(", "a", "A_"]), some(rng), [m + s for m in ("if", "a.b", "x+", "(", "a", "A_", "ab", "IF") for s in ["", "\n"] + rng.sample(SPECIAL, 12)])
    for s in ('Literal("a.b")', 'Char("ab-]")', 'Char(exclude="^a")', 'Word("ab", "1", min=2, max=3)', 'CharsNotIn("ab", max=2)', 'CaselessLiteral("a-b")',
              '(Literal("a") | "ab")', 'Keyword("a")', 'inws("", lambda: Literal("a") + (Literal("b") | "ca") + "c")', 'inws("", lambda: OneOrMore(Literal("ab") | "c"))',
              'inws("", lambda: (Literal("ab") | "c")[2:3])', 'inws("", lambda: Many(Literal("a") + "b", min_match=2))', 'LineStart()', 'WordStart("ab")', 'WordEnd("ab")',
              'inws("", lambda: ~Literal("ab"))', 'LookAhead("ab")', 'PrecededBy("ab")', 'inws("", lambda: Literal("a") + (Literal("b")[0:2]))', 'Regex("a|b")', 'inws("", lambda: Regex("a|bb") + Literal("c"))', 'AnyChar()', 'NoMatch()', 'Char("ab", exclude="ab")', 'Word("ab", exclude="ba")', 'Empty()',
              'inws("", lambda: (Literal("a") | Empty()) + "b")', 'inws("", lambda: Literal("a") ^ Empty())', 'inws("", lambda: Many(Many(Literal("a"), exact=2), exact=2))',
              'inws("", lambda: Many(CharsNotIn("ab", exact=2), min_match=1, max_match=2))', 'inws("", lambda: Char("ab")[2:3] + "c")', 'inws("", lambda: Many(Word("ab", exact=2), exact=2))', 'inws("", lambda: Many(Char("ab", as_keyword=True), min_match=1))', 'inws("", lambda: Literal(",") + Optional(Char("ab", as_keyword=True)) + Literal(","))'):
        h.run(regex_text, s, all_texts("abc.", 4) + all_texts("ab-\n", 4) + all_texts("ab1]^", 3))
