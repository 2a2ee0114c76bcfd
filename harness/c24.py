from lib import *

RULE = ("random definitions around recursive uses of one to three forward declarations, refused or accepted as a separate analysis "
        "of the definition says; random grammars: no match shorter than min_length, Forward(e) and e agree; non-trivial: a "
        "definition with a recursive use, keyed by its source; a match, keyed by grammar, text, position")

CONSUME = ['Literal("a")', 'Word("ab")', 'Char("b")', 'Keyword("a")', 'Literal("b").suppress()', 'CaselessLiteral("ab")',
           'AnyChar()', 'CharsNotIn("a")', 'Word("ab", exact=2)', 'Forward(Literal("a"))', 'Group(Literal("b"))', 'Regex("a+b")']
NULLABLE = ['Empty()', 'Optional(Literal("a"))', 'ZeroOrMore(Literal("b"))', 'StringStart()', 'LookAhead("a")', '~Literal("a")',
            'Optional(Word("ab"), default="x")', 'SkipTo(Literal("b"))', 'Many(Literal("a"), min_match=0, max_match=2)',
            'Forward(Optional(Literal("a")))', 'Regex("a*")', 'WordStart()', 'LineStart()']


def grammar(rng, depth, uses):
    if depth <= 0 or rng.random() < 0.1:
        x = rng.random()
        if x < 0.3:
            return [rng.choice(uses)]
        return ["leaf", rng.choice(CONSUME), 1] if x < 0.68 else ["leaf", rng.choice(NULLABLE), 0]
    e = lambda: grammar(rng, depth - 1, uses)
    k = rng.randrange(16)
    n = rng.choice([2, 2, 3])
    if k < 5:
        return ["And"] + [e() for _ in range(n)]
    if k < 7:
        return ["MatchFirst"] + [e() for _ in range(n)]
    if k < 9:
        return ["Or"] + [e() for _ in range(n)]
    if k == 9:
        return ["MatchAll"] + [e() for _ in range(2)]
    return [rng.choice(["Optional", "ZeroOrMore", "OneOrMore", "Group", "Suppress", "Combine", "LookAhead", "NotAny",
                        "Name", "Many2", "Many0"]), e()]


def source(g):
    k = g[0]
    if k in ("f", "g", "h"):
        return k
    if k == "leaf":
        return g[1]
    inner = [source(x) for x in g[1:]]
    if k in ("And", "MatchFirst", "Or"):
        op = {"And": " + ", "MatchFirst": " | ", "Or": " ^ "}[k]
        return "(" + op.join("(%s)" % x if i == 0 else x for i, x in enumerate(inner)) + ")"
    if k == "MatchAll":
        return "(%s & %s)" % tuple(("Group(%s)" % x) for x in inner)
    if k == "Name":
        return "(%s)('n')" % inner[0]
    if k == "Many2":
        return "Many(%s, min_match=2, max_match=3)" % inner[0]
    if k == "Many0":
        return "Many(%s, min_match=0, max_match=3)" % inner[0]
    return "%s(%s)" % (k, inner[0])


def nullable(g, env):
    """may match without consuming anything"""
    k = g[0]
    if k in env:
        return env[k]
    if k == "leaf":
        return not g[2]
    if k in ("And", "MatchAll"):
        return all(nullable(x, env) for x in g[1:])
    if k in ("MatchFirst", "Or"):
        return any(nullable(x, env) for x in g[1:])
    if k in ("Optional", "ZeroOrMore", "LookAhead", "NotAny", "Many0"):
        return True
    return nullable(g[1], env)


def first(g, env):
    """the forward declarations that may be tried where g is"""
    k = g[0]
    if k in env:
        return {k}
    if k == "leaf":
        return set()
    if k == "And":
        out = set()
        for x in g[1:]:
            out |= first(x, env)
            if not nullable(x, env):
                break
        return out
    out = set()
    for x in g[1:]:
        out |= first(x, env)
    return out


def analyse(defs):
    """-> is a forward declaration left recursive"""
    env = {k: False for k in defs}
    for _ in range(4):
        env = {k: nullable(d, env) for k, d in defs.items()}
    reach = {k: first(d, env) for k, d in defs.items()}
    for _ in range(4):
        reach = {k: r | {y for x in r for y in reach[x]} for k, r in reach.items()}
    return any(k in r for k, r in reach.items())


def lenient(defs):
    """a forward declaration used before it is defined, or within its own definition, counts as matching nothing"""
    env = {k: True for k in defs}
    reach = {k: first(d, env) for k, d in defs.items()}
    for _ in range(4):
        reach = {k: r | {y for x in r for y in reach[x]} for k, r in reach.items()}
    return any(k in r for k, r in reach.items())


@case
def recursion(h, defs, order, texts):
    F = ENV["Forward"]
    env = dict(ENV, f=F(), g=F(), h=F())
    refused = made = False
    srcs = {k: source(d) for k, d in defs.items()}
    try:
        for k in order:
            d = eval(srcs[k], env)
            made = True
            env[k] << d
            made = False
    except Timeout:
        raise
    except Exception as e:
        if type(e).__name__ == "RecursiveGrammarException":
            refused = True
        elif isinstance(e, RecursionError):
            return "%s: defining it never ends" % srcs
        elif made:
            return "%s: defining %s raises %s: %s" % (srcs, k, type(e).__name__, str(e)[:200])
        else:
            return                      # not an expression
    left = analyse(defs)
    h.count((repr(srcs), tuple(order)) if any(k in s for k, s in srcs.items()) else None)
    if left and not refused:
        return "%s: left recursion is not refused" % srcs
    if refused and not lenient(defs):
        return "%s: refused, though text is consumed before every recursive use" % srcs
    if not refused:
        for t in texts:
            got = attempt(env[order[0]], t, 0)
            if isinstance(got, Other) and "RecursionError" in got.what:
                return "%s on %r: accepted, yet parsing never ends" % (srcs, t)
            got2 = attempt(env[order[0]].expr, t, 0)
            if not same(got, got2):
                return "%s on %r: %r, its definition: %r" % (srcs, t, got, got2)


@case
def shortest(h, src, texts):
    e = try_build(src)
    if e is None:
        return
    least = e.min_length()
    for t in texts:
        for p in range(len(t) + 1):
            got = attempt(e, t, p)
            h.count((src, t, p) if isinstance(got, Ok) else None)
            if isinstance(got, Ok) and got.end - got.start < least:
                return "%s at %d of %r: %r, shorter than min_length() = %d" % (src, p, t, got, least)


@case
def transparent(h, src, texts):
    e, d = try_build(src), try_build(src)
    if e is None:
        return
    f = ENV["Forward"]()
    f << d
    k = ENV["Forward"](d)
    c = f.copy()
    chain = [ENV["Forward"]() for _ in range(3)]
    chain[0] << chain[1]
    chain[1] << chain[2]
    chain[2] << d
    for t in texts:
        for p in range(len(t) + 1):
            want = attempt(e, t, p)
            h.count((src, t, p) if isinstance(want, Ok) else None)
            for who, x in (("defined by <<", f), ("defined by Forward(...)", k), ("a copy", c), ("defined by one defined later", chain[0])):
                got = attempt(x, t, p)
                if not same(want, got):
                    return "%s at %d of %r: %r, forward %s: %r" % (src, p, t, want, who, got)
                if isinstance(want, Ok):
                    if {n: want.raw[n] for n in want.raw.keys()} .keys() - set(got.raw.keys()):
                        return "%s at %d of %r: names %r, forward %s: %r" % (src, p, t, list(want.raw.keys()), who, list(got.raw.keys()))


def main(h):
    rng = h.rng
    for _ in h.loop(4000):
        uses = rng.choice([["f"], ["f"], ["f"], ["f", "g"], ["f", "g"], ["f", "g", "h"]])
        defs = {k: grammar(rng, rng.choice([0, 1, 2, 2, 3]), uses) for k in uses}
        order = list(uses)
        rng.shuffle(order)
        h.run(recursion, defs, order, ["", "a", "ab", "b a", "aab", "aaab"])
    for i in h.loop(700):
        h.run(shortest, expr(rng, rng.choice([0, 1, 2, 3])), texts_for(rng, 6))
    for i in h.loop(400):
        h.run(transparent, expr(rng, rng.choice([0, 1, 2])), texts_for(rng, 5))
