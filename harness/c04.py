from lib import *

RULE = ("longest-match choices of 2..7 alternatives (literals and words sharing prefixes, caseless, non-ascii, annotated, "
        "nested, repeated, zero-width) built by class, streamlined and by operator x texts x positions, against the "
        "alternatives tried one by one; non-trivial: a match by an alternative, keyed by grammar, text, position")

LITS = ["a", "b", "ab", "aa", "aab", "aba", "ba", "bb", "abb", "A", "Ab", "B", "abc", "abd", "c", "ca", "cab", "\u00df", "ss",
        "if", "in", "int", "I", "is", "\u0130", "\u0131", "k", "\u212a", "\u0663", "\u00e9", "bd", "bcd"]


def loose(rng):
    """may match nothing"""
    return rng.choice(["Optional(%r)", "ZeroOrMore(%r)", "Optional(Literal(%r), default='d')", "LookAhead(%r)", "Many(%r, min_match=0, max_match=2)", "Group(Optional(%r))", "~Literal(%r)"]) % rng.choice(LITS)


def alt(rng, chars="abc"):
    x = rng.random()
    if x < 0.40:
        return "Literal(%r)" % rng.choice(LITS)
    if x < 0.52:
        return "CaselessLiteral(%r)" % rng.choice(LITS)
    if x < 0.60:
        return "Keyword(%r%s)" % (rng.choice(LITS), rng.choice(["", ", caseless=True"]))
    if x < 0.66:
        return rng.choice(['Word("ab")', 'Word("abAB")', 'Word("a", "bc")', 'Char("ab")', 'Char("c")', 'CharsNotIn("a")', 'Word("abcdefghijklm")'])
    if x < 0.72:
        return "(Literal(%r) + Literal(%r))" % (rng.choice(LITS), rng.choice(LITS))
    if x < 0.76:
        return "Literal(%r)%s" % (rng.choice(LITS), rng.choice(['("n")', '.suppress()', '.set_parser_name("p")', ' / (lambda t: "X")']))
    if x < 0.80:
        return "(Optional(%r) + Literal(%r))" % (rng.choice(LITS), rng.choice(LITS))
    if x < 0.83:
        return "(~Literal(%r) + Word('abcABC'))" % rng.choice(LITS)
    if x < 0.86:
        return "(LookAhead(%r) + Literal(%r))" % (rng.choice(LITS), rng.choice(LITS))
    if x < 0.88:
        return rng.choice(ZERO)
    if x < 0.90:
        return rng.choice(['Regex("a+b?")', 'Regex("[ab]c")', 'Regex("ab|ba")', 'Regex("(?:c|ca)b")', 'Regex("a?b")', 'Regex("bc?d")', 'Regex("ab*c")', 'Regex("(?i)ab")', r'Regex("\w+")', r'Regex("\d")', 'Regex("a??b")', 'Regex("[^a]b")'])
    if x < 0.93:
        return "Group(Literal(%r) | Literal(%r))" % (rng.choice(LITS), rng.choice(LITS))
    if x < 0.95:
        return "OneOrMore(Literal(%r))" % rng.choice(LITS)
    if x < 0.98:
        return loose(rng)
    return expr(rng, 2)


def texts(rng, n):
    out = [rng.choice(LITS) + rng.choice(["", " ", "b", "c", rng.choice(LITS)]) for _ in range(n)]
    out += [rng.choice(LITS).swapcase() + rng.choice(LITS) for _ in range(n // 2)]
    out += rng.sample(TEXTS4, n // 2)
    return out


def first_of(alts, t, p):
    """(index, outcome) of the first alternative reaching the greatest end"""
    best = None, Fail()
    for i, e in enumerate(alts):
        o = attempt(e, t, p)
        if isinstance(o, Other):
            return i, o
        if isinstance(o, Ok) and (best[0] is None or o.end > best[1].end):
            best = i, o
    return best


def make(srcs, how):
    es = [build(s) for s in srcs]
    if how == "class":
        return ENV["Or"](es)
    if how == "stream":
        return ENV["Or"](es).streamline()
    if how == "seq":        # inside another expression, streamlined with it
        return ENV["And"]([ENV["Or"](es)]).streamline()
    if how == "fwd":
        return ENV["Forward"](ENV["Or"](es))
    if how == "texts":
        es = plain_texts(srcs, es)
    real = es[0] ^ es[1]
    for e in es[2:]:
        real = real ^ e
    return real


@case
def choice(h, srcs, how, ts):
    try:
        alts = [build(s) for s in srcs]
        real = make(srcs, how)
    except Exception:
        return
    for t in ts:
        for p in range(len(t) + 1):
            i, want = first_of(alts, t, p)
            if isinstance(want, Other):
                continue
            got = attempt(real, t, p)
            h.count((tuple(srcs), t, p) if isinstance(want, Ok) else None)
            if not same(got, want):
                return "choice %s (%s) at %d of %r: got %r, alternative %r gives %r" % (
                    " ^ ".join(srcs), how, p, t, got, None if i is None else srcs[i], want)


@case
def actions(h, srcs, how, vetoed, ts):
    """the winner among the alternatives whose condition accepts; its action alone decides the tokens"""
    try:
        alts = [build(s) for s in srcs]
        es = [build(s).add_condition(lambda tokens, i=i: i not in vetoed) if not s.startswith("Forward") else build(s) for i, s in enumerate(srcs)]
        alts = [build(s).add_condition(lambda tokens, i=i: i not in vetoed) if not s.startswith("Forward") else build(s) for i, s in enumerate(srcs)]
        real = ENV["Or"](es)
        if how == "stream":
            real = real.streamline()
    except Exception:
        return
    for t in ts:
        for p in range(len(t) + 1):
            i, want = first_of(alts, t, p)
            if isinstance(want, Other):
                continue
            got = attempt(real, t, p)
            h.count((tuple(srcs), t, p, "cond") if isinstance(want, Ok) else None)
            if not same(got, want):
                return "choice %s (%s, vetoed %s) at %d of %r: got %r, expected %r" % (srcs, how, vetoed, p, t, got, want)


def main(h):
    rng = h.rng
    for _ in h.loop(2200):
        n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8])
        srcs = [alt(rng) for _ in range(n)]
        if rng.random() < 0.3:
            srcs = ["Literal(%r)" % rng.choice(LITS) for _ in range(n)]
        elif rng.random() < 0.1:
            srcs = [loose(rng) for _ in range(n)]
        how = rng.choice(["class", "stream", "stream", "ops", "texts", "seq", "fwd"])
        if rng.random() < (0.7 if how == "texts" else 0.15):      # ties that differ in what they give
            srcs = [rng.choice(["Literal(%r)" % rng.choice(LITS), "Group(Literal(%r))" % rng.choice(LITS), 'Group(Word("ab"))', 'Word("ab")', "Group(Word('abc', max=2))"]) for _ in range(n)]
        h.run(choice, srcs, how, texts(rng, 12))
        if rng.random() < 0.1:
            h.run(actions, srcs, rng.choice(["class", "stream"]), rng.sample(range(n), rng.randrange(n)), texts(rng, 6))
