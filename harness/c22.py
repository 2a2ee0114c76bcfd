from lib import *
from c15 import nested
from c16 import value_key, look

RULE = ("random grammars built without streamlining and their streamlined versions (also streamlined twice and through a parser) "
        "on random texts at all positions: same success, span, visible tokens, names; non-trivial: a match of a grammar "
        "that streamlining changed, keyed by grammar, text, position")


MARKED = ["Empty().add_condition(lambda t: False, callDuringTry=True)", "Empty().add_condition(lambda t: True, callDuringTry=True)", "Empty().add_parse_action(lambda t: 'e')('k')",
          "And([Empty().add_condition(lambda t: False, callDuringTry=True)])", "And([Empty().add_parse_action(lambda t: 'e')('k')])"]


def raw(rng, depth, spaced):
    """
    an expression whose operators have not been streamlined: constructors only
    spaced: for texts with whitespace.  A sequence does not count the whitespace before an optional element that
    matched nothing, but does so before the same element inside another that streamlining removes (a known
    finding): such grammars are tried on texts without whitespace only
    """
    if depth <= 0 or rng.random() < 0.12:
        if spaced:
            return leaf(rng, 0)
        x = rng.random()
        return leaf(rng, 0.15) if x > 0.1 else rng.choice(["Empty()", "NoMatch()", "Empty()", "StringStart()", "And([])", "MatchFirst([])", "Or([])", "MatchAll([])"] + MARKED)
    e = lambda: raw(rng, depth - 1, spaced)
    k = rng.randrange(24)
    n = rng.choice([2, 2, 3] if spaced else [1, 2, 2, 3])
    solid = leaf(rng, 0) if spaced else None
    if k < 5:
        return "And([%s])" % ", ".join(([solid] if solid else []) + [e() for _ in range(n)])
    if k < 9:
        return "MatchFirst([%s])" % ", ".join(e() for _ in range(n))
    if k < 12:
        return "Or([%s])" % ", ".join(e() for _ in range(n))
    if k == 12:
        return "Optional(%s)" % noback(e())
    if k == 13:
        return "ZeroOrMore(%s)" % noback(e())
    if k == 14:
        return "OneOrMore(%s)" % noback(e())
    if k == 15:
        lo, hi = rng.choice([(1, 2), (2, 2), (0, 1)] if spaced else [(1, 1), (0, 0), (1, 2), (2, 2), (0, 1)])
        return "Many(%s, min_match=%d, max_match=%d)" % (noback(e()), lo, hi)
    if k == 16:
        return "Group(%s)" % e()
    if k == 17:
        return "(%s)(%r)" % (e(), rng.choice(["n", "m"]))
    if k == 18:
        return "LookAhead(%s)" % e()
    if k == 19:
        return "NotAny(%s)" % e()
    if k == 20:
        return "Suppress(%s)" % e()
    if k == 21:
        return "(%s).add_parse_action(%s)" % (e(), rng.choice(["lambda t: ['v']", "lambda t: None", "lambda t: list(t)"]))
    if k == 22:
        return "Combine(%s)" % e()
    if spaced and rng.random() < 0.6:
        return "ignoring(%r, '#', lambda: %s)" % (rng.choice([" ", " \n\r\t", ""]), e())
    return "inws(%r, lambda: %s)" % (rng.choice(["", " ", "b"] if spaced else ["", " "]), e())


def marked(rng, src, texts):
    """some of the texts with what is ignored"""
    if "ignoring" not in src:
        return texts
    out = []
    for t in texts:
        while "#" not in t and rng.random() < 0.8 or rng.random() < 0.3:
            k = rng.randrange(len(t) + 1)
            t = t[:k] + "#" + t[k + (rng.random() < 0.5):]
        out.append(t)
    return out


def simple(rng):
    cls = rng.choice(["And", "MatchFirst", "Or", "MatchAll"])
    a = leaf(rng, 0.1)
    k = rng.randrange(4)
    if k == 0:
        return "%s([])" % cls
    if k == 1:
        return "%s([%s])" % (cls, a)
    if k == 2:
        return "(lambda x: %s([x, x]))(%s)" % (cls, a)
    return "%s([%s([%s])])" % (cls, rng.choice(["And", "MatchFirst", "Or"]), a)


def dense(rng, n):
    """texts without whitespace"""
    return [t.replace(" ", rng.choice(["", "b"])).replace("\n", "") for t in texts_for(rng, n)]


def names(r):
    """names that have a value"""
    return [k for k in r.keys() if look(r, k)]


@case
def streamlining(h, src, texts):
    a, b = try_build(src), try_build(src)
    if a is None or a.streamlined:
        return
    try:
        s = b.streamline()
    except Timeout:
        raise
    except Exception as e:
        if type(e).__name__ == "RecursiveGrammarException":
            return
        return "%s: streamlining raises %s: %s" % (src, type(e).__name__, str(e)[:200])
    s2 = s.streamline()
    ga, gg = ENV["Group"](a), [ENV["Group"](s), ENV["Group"](s2), ENV["Group"](b)]
    changed = repr(type(s)) != repr(type(a)) or str(s) != str(a)
    for t in texts:
        for p in range(len(t) + 1):
            x = attempt(a, t, p)
            if isinstance(x, Other):
                continue
            w = attempt(ga, t, p)
            for who, g, k in (("streamlined", s, gg[0]), ("streamlined twice", s2, gg[1]), ("definition, after streamlining it", b, gg[2])):
                y, z = attempt(g, t, p), attempt(k, t, p)
                h.count((src, t, p) if isinstance(x, Ok) and changed else None)
                if not same(x, y) or not same(w, z):
                    return "%s at %d of %r: %r, %s: %r" % (src, p, t, x, who, y)
                if isinstance(x, Ok):
                    if nested(w.raw) != nested(z.raw):
                        return "%s at %d of %r: tokens %r, %s: %r" % (src, p, t, nested(w.raw), who, nested(z.raw))
                    if a.token_name and a.token_name != g.token_name:
                        return "%s: the name %r became %r" % (src, a.token_name, g.token_name)
                    nx, ny = names(w.raw), names(z.raw)
                    if set(nx) != set(ny):
                        return "%s at %d of %r: names %r, %s: %r" % (src, p, t, nx, who, ny)


@case
def actions_kept(h, src, texts):
    """an action on every kind of annotated inner expression still runs"""
    log = []
    def rec(tokens, index, string):
        log.append(string[tokens.start:tokens.end])
    if try_build(src.replace("(rec)", "(lambda: None)")) is None:
        return      # refused
    a = eval(src, dict(ENV, rec=rec))
    b = eval(src, dict(ENV, rec=rec)).streamline()
    for t in texts:
        del log[:]
        x = attempt(a, t, 0)
        want = list(log)
        del log[:]
        y = attempt(b, t, 0)
        h.count((src, t) if want else None)
        if log != want or not same(x, y):
            return "%s on %r: actions saw %r, streamlined %r; outcomes %r and %r" % (src, t, want, log, x, y)


def main(h):
    rng = h.rng
    for _ in h.loop(2200):
        spaced = rng.random() < 0.5
        ts = texts_for(rng, 6) if spaced else dense(rng, 6)
        src = raw(rng, rng.choice([1, 2, 2, 3, 3, 4]), spaced)
        h.run(streamlining, src, marked(rng, src, ts))
    for _ in h.loop(250):
        # a sequence in a sequence, each with its own whitespace
        ws = ["%s", "inws(' ', lambda: %s)", "inws('', lambda: %s)", "ignoring(' ', '#', lambda: %s)", "ignoring(' \\n\\r\\t', '#', lambda: %s)", "ignoring('', '#', lambda: %s)"]
        part = lambda: rng.choice(["Literal('a')", "Char('ab')", "Literal('b')", "Word('b')"])
        inner = rng.choice(ws) % ("%s([%s, %s])" % (rng.choice(["And", "And", "And", "MatchFirst"]), part(), part()))
        seq = [part(), inner] if rng.random() < 0.5 else [inner, part()]
        if rng.random() < 0.3:
            seq.insert(rng.randrange(3), part())
        src = rng.choice(ws) % ("And([%s])" % ", ".join(seq))
        h.run(streamlining, src, marked(rng, src, [rng.choice(["", " ", "#", ""]).join(rng.choice("ab") for _ in range(rng.choice([2, 3, 3, 4]))) for _ in range(10)]))
    for _ in h.loop(60):
        # something that wraps an empty element which has a condition, an action or a name
        src = rng.choice(["LookAhead(%s)", "NotAny(%s)", "Suppress(%s)", "Optional(%s)", "OneOrMore(%s)", "Group(%s)", "LookAhead(MatchFirst([%s]))"]) % rng.choice(MARKED)
        h.run(streamlining, rng.choice(["%s", "And([%s, Literal('b')])", "MatchFirst([%s, Literal('b')])"]) % src, dense(rng, 4))
    for _ in h.loop(150):
        # annotated expressions of few elements, where streamlining would drop or replace the unannotated ones
        mark = rng.choice(["(%s)('n')", "(%s).add_parse_action(lambda t: ['v'])", "Group(%s)('n')", "Group((%s)('n'))"])
        outer = rng.choice(["%s", "And([%s])", "And([%s, Literal('b')])", "MatchFirst([%s, Literal('b')])", "MatchFirst([%s])", "Or([%s, Literal('b')])", "Group(%s)", "Optional(%s)"])
        h.run(streamlining, outer % (mark % simple(rng)), dense(rng, 6))
    for _ in h.loop(60):
        # a look-behind that begins a sequence in a sequence sees the whitespace before it
        lb = rng.choice(["PrecededBy(%s)", "PrecededBy(%s)", "~PrecededBy(%s)"]) % rng.choice(["Literal('a')", "Literal(' ')", "Char('ab')", "Literal('b')"])
        inner = "And([%s, %s])" % (lb, rng.choice(["Literal('b')", "Char('ab')", "Word('ab')"]))
        src = rng.choice(["And([%s, %s])", "And([%s, %s, Literal('a')])", "And([Optional(%s), %s])"]) % (rng.choice(["Literal('a')", "Char('ab')"]), inner)
        h.run(streamlining, src, marked(rng, src, [rng.choice(["", " "]).join(rng.choice("ab") for _ in range(rng.choice([2, 3, 4]))) for _ in range(8)]))
    for _ in h.loop(60):
        # repetitions of one length that stop at something
        m = rng.choice([0, 1, 1, 1, 2])
        src = "Many(%s, min_match=%d, max_match=%d, stop_on=%s)" % (rng.choice(["Char('ab')", "Word('ab')", "Char('a')", "Group(Char('ab'))"]), m, m, rng.choice(["Literal('a')", "Char('b')", "Literal('ab')", "Keyword('b')"]))
        h.run(streamlining, rng.choice(["%s", "And([%s, Literal('b')])", "Optional(%s)", "Group(%s)"]) % src, dense(rng, 6))
    for _ in h.loop(150):
        spaced = rng.random() < 0.4
        inner = rng.choice([raw(rng, 1, spaced)] * 3 + [simple(rng)])
        outer = rng.choice(["And([%s, Literal('b')])", "MatchFirst([%s, Literal('b')])", "MatchFirst([%s])", "And([%s])", "Or([%s, Literal('b')])",
                            "Optional(%s)", "Many(%s, min_match=1, max_match=1)", "MatchFirst([MatchFirst([%s, Literal('b')]), Literal('a')])",
                            "And([And([%s, Optional(Literal('b'))]), Literal('a')])", "Many(Many(%s, min_match=1, max_match=1), min_match=1, max_match=1)"])
        h.run(actions_kept, outer % ("(%s).add_parse_action(rec)" % inner), texts_for(rng, 8) if spaced else dense(rng, 8))
