from lib import *

RULE = ("look-ahead, negative look-ahead and look-behind of terminals, annotated terminals, composites and "
        "zero-width expressions, alone, inside sequences and streamlined x texts x positions, against the inner "
        "expression's own matches; non-trivial: an assertion that holds, keyed by grammar, text, position")

TOK = LEAVES + ZERO + SLOW + [
    'Literal("a") / (lambda t: "X")', 'Literal("a").add_condition(lambda t, i, s: i == 0)', 'Word("ab").add_condition(lambda t: len(t[0]) == 2)',
    'Char("ab")("n")', '(Literal("a") | "b")', '(Literal("a") + "b")', 'ZeroOrMore("a")', 'Optional("b")', 'Forward(Literal("a"))',
    '(Literal("ab") ^ "a")', 'SkipTo("b")', 'Group("a")', 'Combine(Literal("a") + "b")', '(StringEnd() | "a")', 'LineEnd()', '(~Literal("a") + "b")',
    'Word("ab", max=2)', 'Word("ab", as_keyword=True)', 'Keyword("a", ident_chars="a")', 'Char("a", as_keyword=True)',
]


@case
def look_ahead(h, src, texts):
    try:
        e = build(src)
        for how in ("raw", "stream", "seq"):
            la = ENV["LookAhead"](build(src))
            na = ~build(src)
            if how == "stream":
                la, na = la.streamline(), na.streamline()
            if how == "seq":
                la = (ENV["Empty"]() + la).streamline()
                na = ENV["Group"](na).streamline()
            for t in texts:
                for p in range(len(t) + 1):
                    o = attempt(e, t, p)
                    if isinstance(o, Other):
                        continue
                    a, n = attempt(la, t, p), attempt(na, t, p)
                    h.count((src, how, t, p, isinstance(o, Ok)))
                    wa, wn = (Ok, Fail) if isinstance(o, Ok) else (Fail, Ok)
                    if not isinstance(a, wa) or isinstance(a, Ok) and ((a.start, a.end) != (p, p) or a.toks):
                        return "LookAhead(%s) (%s) at %d of %r: %r, the expression itself: %r" % (src, how, p, t, a, o)
                    if how == "seq":
                        n.toks = [] if isinstance(n, Ok) else None
                    if not isinstance(n, wn) or isinstance(n, Ok) and ((n.start, n.end) != (p, p) or n.toks):
                        return "~(%s) (%s) at %d of %r: %r, the expression itself: %r" % (src, how, p, t, n, o)
    except ParseException:
        raise
    except Exception as e:
        if type(e).__name__ in ("AttributeError", "NotImplementedError"):
            raise
        return


@case
def names_survive(h, src, texts):
    """a look-ahead keeps the names found, and no text"""
    try:
        e = build(src)("k")
        la = ENV["LookAhead"](build(src)("k"))
    except Exception:
        return
    for t in texts:
        for p in range(len(t) + 1):
            o, a = attempt(e, t, p), attempt(la, t, p)
            if isinstance(o, Ok) and isinstance(a, Ok):
                h.count((src, "name", t, p))
                if list(a.raw):
                    return "LookAhead(%s('k')) at %d of %r has tokens %r" % (src, p, t, list(a.raw))


BEHIND = ['Literal("a")', 'Literal("ab")', 'CaselessLiteral("Ab")', 'Keyword("a")', 'Keyword("ab")', 'Char("ab")', 'Char(exclude="a")',
          'Word("ab")', 'Word("a", "b")', 'Word("ab", min=2)', 'Word("ab", exact=2)', 'Word("b", max=2)', 'CharsNotIn("a")', 'CharsNotIn("a", max=2)',
          '(Literal("a") + "b")', '(Literal("a") | "ab")', '(Literal("b") ^ "ab")', 'OneOrMore("a")', 'ZeroOrMore("b")', 'Optional("a")', 'Regex("a+b?")',
          'AnyChar()', '(AnyChar() + "b")', 'Group(Word("ab"))', 'Word("ab")("n")', 'Forward(Literal("b"))', 'StringStart()', 'LineStart()', 'WordStart("ab")', 'LineEnd()', 'StringEnd()',
          'inws("", lambda: Literal("a") + Optional("b"))', 'Literal("a").add_condition(lambda t, i, s: i == 0)']
# judged on the whole text: those of one length, and the ends of line and text; everything else on the text before the position
EXACT = ("Literal(", "CaselessLiteral(", "Keyword(", "Char(", "StringStart(", "LineStart(", "WordStart(", "LineEnd(", "StringEnd(")


@case
def look_behind(h, src, texts):
    e = build(src)
    for how in ("raw", "stream", "seq"):
        lb = ENV["PrecededBy"](build(src))
        if how == "stream":
            lb = lb.streamline()
        if how == "seq":
            lb = ENV["And"]([ENV["PrecededBy"](build(src)), ENV["Empty"]()]).streamline()
        for t in texts:
            for p in range(len(t) + 1):
                whole = src.startswith(EXACT)
                s = t if whole else t[:p]
                want = False
                for q in range(p, -1, -1):
                    o = attempt(e, s, q)
                    if isinstance(o, Ok) and o.end == p:
                        want = True
                        break
                got = attempt(lb, t, p)
                h.count((src, how, t, p) if want else None)
                if isinstance(got, Other) or isinstance(got, Ok) != want or want and ((got.start, got.end) != (p, p) or got.toks):
                    return "PrecededBy(%s) (%s) at %d of %r: %r, a match ending there exists: %s" % (src, how, p, t, got, want)


def main(h):
    rng = h.rng
    for s in TOK:
        h.run(look_ahead, s, TEXTS3 + ["\n", "a\n", "\na", "b\n", "A", "aA", "bb\n\n", "1a", "_a"])
        h.run(names_survive, s, TEXTS3)
    for s in BEHIND:
        h.run(look_behind, s, TEXTS3 + ["abab", "abb ", "\nab", "a\n", "Ab", "aab1", "a\nb", "a\r\nb", "a\n\n"])
    for _ in h.loop(1500):
        s = expr(rng, 2, zero=0.2)
        h.run(look_ahead, s, texts_for(rng, 12, "ab \nA1"))
    for _ in h.loop(300):
        h.run(look_behind, rng.choice(BEHIND), texts_for(rng, 10, "ab \nA1"))
