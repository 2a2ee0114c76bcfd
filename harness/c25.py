from lib import *
from c09 import kw, clit, lit, IDENT

RULE = ("random collections of literals (prefixes of one another, duplicates, letters in both cases, special characters), in "
        "several orders, on random texts at every position; delimited lists against a token by token reading; non-trivial: "
        "a match with two or more candidates or items, keyed by literals or list, text, position")
ALPHA = ["a", "b", "ab", "aB", "A", "+", "-", ".", "*", "a+", "]", "^", "\\", "|", "1", "_", "(", "ba", "é"]


def literal(rng):
    return "".join(rng.choice(ALPHA) for _ in range(rng.choice([1, 1, 2, 2, 3])))


import mo_parsing.whitespaces as _w
h_white = _w.CURRENT.white_chars


def skip(t, p):
    while p < len(t) and t[p] in h_white:
        p += 1
    return p


@case
def longest(h, words, caseless, as_keyword, as_text, texts):
    arg = " ".join(words) if as_text else words
    e = one_of(arg, caseless=caseless, as_keyword=as_keyword)
    e2 = one_of(list(reversed(words)), caseless=caseless, as_keyword=as_keyword)
    for t in texts:
        for p in range(len(t) + 1):
            q = p
            cands = []
            for w in words:
                if as_keyword:
                    r = kw(w, IDENT, caseless)(t, q)
                else:
                    r = (clit if caseless else lit)(w)(t, q)
                if isinstance(r, Ok):
                    cands.append(r)
            # an alternation that is a regular expression does not skip whitespace before a failure
            far = max([r.end for r in cands] or [-1])
            for who, x in (("", e), (", in the opposite order", e2)):
                got = attempt(x, t, p)
                where = "one_of(%r%s%s)%s at %d of %r" % (arg, ", caseless" if caseless else "", ", as keywords" if as_keyword else "", who, p, t)
                h.count((repr(sorted(words)), caseless, as_keyword, t, p) if len(cands) > 1 else None)
                if not cands:
                    if not isinstance(got, Fail):
                        return "%s: %r, though none of them is there" % (where, got)
                    continue
                best = [r for r in cands if r.end == far]
                if not isinstance(got, Ok) or got.start != q or got.end != far:
                    return "%s: %r, expected %r" % (where, got, best[0])
                # the token is one of the longest candidates, as given
                if got.toks not in [r.toks for r in best]:
                    return "%s: %r, expected %r" % (where, got, best[0])
                if who == "" and not caseless and got.toks != [t[q:far]]:
                    return "%s: token %r" % (where, got.toks)


ITEMS = [
    ('Word("ab")', lambda t, p: run(t, p, "ab")),
    ('Word("ab01")("x")', lambda t, p: run(t, p, "ab01")),
    ('Group(Word("ab"))', lambda t, p: run(t, p, "ab")),
    ('one_of("a ab b")', lambda t, p: next((p + len(w) for w in ("ab", "a", "b") if t.startswith(w, p)), -1)),
    ('(Literal("a") + Literal("b"))', lambda t, p: skip(t, p + 1) + 1 if t.startswith("a", p) and t.startswith("b", skip(t, p + 1)) else -1),
    ('(Keyword("ab") | Char("1"))', lambda t, p: p + 2 if isinstance(kw("ab")(t, p), Ok) else p + 1 if t.startswith("1", p) else -1),
]


def run(t, p, chars):
    q = p
    while q < len(t) and t[q] in chars:
        q += 1
    return q if q > p else -1


@case
def lists(h, k, sep, expr_sep, combine, texts):
    src, ref = ITEMS[k]
    item = build(src)
    s = ENV["Literal"](sep) if expr_sep else sep
    e = delimited_list(item, s, combine=combine)
    inside = skip
    for t in texts:
        for p in range(len(t) + 1):
            start = q = p
            if skip(t, p) != p:
                continue
            spans = []
            end = -1
            while True:
                n = ref(t, q)
                if n < 0:
                    break
                spans.append((q, n))
                end = n
                d = inside(t, n)
                if not t.startswith(sep, d):
                    break
                q = inside(t, d + len(sep))
            got = attempt(e, t, p)
            where = "delimited_list(%s, %r%s) at %d of %r" % (src, sep, ", combine" if combine else "", p, t)
            h.count((src, sep, combine, t, p) if len(spans) > 1 else None)
            if not spans:
                if not isinstance(got, Fail):
                    return "%s: %r, though there is no item" % (where, got)
                continue
            if not isinstance(got, Ok) or got.start != start or got.end != end:
                return "%s: %r, expected %d items up to %d" % (where, got, len(spans), end)
            if combine:
                want = [sep.join(t[a:b] for a, b in spans)]
            else:
                want = []
                for a, b in spans:
                    x = t[a:b]
                    if k == 4:
                        want += ["a", "b"]
                    else:
                        want.append(("G", [x]) if k == 2 else x)
            if got.toks != want:
                return "%s: %r, expected tokens %r" % (where, got, want)


def main(h):
    rng = h.rng
    h.run(longest, [], False, False, False, ["", "a"])
    for i in h.loop(900):
        words = [literal(rng) for _ in range(rng.choice([1, 2, 3, 4, 5, 6]))]
        if rng.random() < 0.5 and words:
            words += [w[:-1] for w in words if len(w) > 1][:2] + [w.swapcase() for w in words][:1]
        rng.shuffle(words)
        texts = []
        for _ in range(6):
            t = "".join(rng.choice([rng.choice(words), rng.choice(words).swapcase(), rng.choice(ALPHA), " ", "\n"]) for _ in range(rng.randrange(5)))
            texts.append(t)
        as_kw = rng.random() < 0.35
        h.run(longest, words, rng.random() < 0.4, as_kw, rng.random() < 0.3, texts)
    for i in h.loop(500):
        sep = rng.choice([",", ";", "::", "->", "."])
        k = rng.randrange(len(ITEMS))
        combine = rng.random() < 0.25 and k != 2 and k != 4
        texts = []
        for _ in range(6):
            texts.append("".join(rng.choice(["a", "b", "ab", sep, sep, "1", " ", "\n"]) for _ in range(rng.randrange(9))))
        h.run(lists, k, sep, rng.random() < 0.4, combine, texts)
