from lib import *
from c12 import text_outcome
from c16 import value_key

RULE = ("pairs of equal random expressions; from one, many others are derived and used (names, actions, conditions, operators, "
        "streamlining, parsers, parses, scans), then both are compared on texts; grammars parsed again after other "
        "parses; non-trivial: a match, keyed by grammar, derivations and text")

DERIVE = [
    'e("zz")', 'e.set_token_name("zz")', 'e / (lambda t: "changed")', 'e.add_parse_action(lambda t: ["changed"])',
    'e.add_parse_action(lambda t: None, lambda t: 1, callDuringTry=True)', 'e.add_condition(lambda t: False)',
    'e.add_condition(lambda t: True, lambda t: False, callDuringTry=True)', 'e.clear_parse_action()', 'e.suppress()',
    'e + "x"', '"x" + e', 'e + e', 'e | "x"', '"x" | e', 'e ^ "x"', '"x" ^ e', 'e & Literal("x")', '~e', 'e[1:2]', 'e[...]', 'e * 2',
    'Group(e)', 'Optional(e)', 'ZeroOrMore(e)', 'OneOrMore(e)', 'Forward(e)', 'Suppress(e)', 'Combine(e)', 'SkipTo(e)', 'LookAhead(e)',
    'e - Literal("x")', 'e.streamline()', 'e.finalize()', 'e.copy()("yy") / (lambda t: "w")', 'And([e, e])', 'MatchFirst([e, Literal("b"), e])',
    'Or([Literal("ab"), e])', '(e("p") + e("q")).streamline()', '(e / (lambda t: 1) | e("r")).streamline()', 'And([e, Literal("x")]).streamline()',
    'Dict(ZeroOrMore(Group(e)))', 'e.sub("u")', 'e + ... + "x"', '(Empty() + e).streamline()', 'Many(e, min_match=1, max_match=1).streamline()',
    'fwd(lambda f: e + f | e)', 'delimited_list(e)', 'infix_notation(e, [("+", 2, LEFT_ASSOC)])', 'str(e)', 'e.expecting()', 'e.min_length()',
    'e.__regex__()', 'inws("", lambda: e + "b")', 'Group(e)("g").add_parse_action(lambda t: 3)', 'e.whitespace', 'e.is_annotated()', 'MatchAll([e, Literal("x")])',
]
USE = ["parse", "parse_all", "scan", "search", "split", "transform", "matches", "element"]


def full(o):
    """all that is seen of an outcome, names too"""
    if isinstance(o, Ok):
        r = o.raw
        return ("match", o.start, o.end, repr(o.toks), tuple(names(r)))
    if isinstance(o, Fail):
        return ("fail", o.exc.loc if o.exc is not None else None)
    return o.what


def names(r):
    if not isinstance(r, ParseResults):
        return []
    return sorted((k, repr([value_key(x) for x in v])) for k, v in r.items())


def use(x, t, how):
    try:
        if how == "parse":
            x.parse(t)
        elif how == "parse_all":
            x.parse(t, parse_all=True)
        elif how == "scan":
            list(x.scan_string(t))
        elif how == "search":
            x.search_string(t)
        elif how == "split":
            list(x.split(t))
        elif how == "transform":
            x.transform_string(t)
        elif how == "matches":
            x.matches(t)
        else:
            x._parse(t, 0)
    except Timeout:
        raise
    except Exception:
        pass


@case
def deriving(h, src, derive, uses, texts):
    e, twin = try_build(src), try_build(src)
    if e is None:
        return
    for d, u in zip(derive, uses):
        if type(e).__name__ == "Forward" and d.startswith("e.add_parse_action"):
            continue      # a forward declaration takes its actions in place
        try:
            x = eval(d, dict(ENV, e=e))
        except Timeout:
            raise
        except Exception:
            continue
        if hasattr(x, "parse") or hasattr(x, "_parse"):
            use(x, texts[0], u)
            use(x, texts[-1], u)
    for t in texts:
        for p in range(min(len(t), 3) + 1):
            a, b = attempt(e, t, p), attempt(twin, t, p)
            h.count((src, tuple(derive), t, p) if isinstance(a, Ok) else None)
            if full(a) != full(b):
                return "%s after %s at %d of %r: %r %r, without: %r %r" % (src, derive, p, t, a, full(a), b, full(b))


@case
def again(h, src, texts, uses):
    """the same text, after other parses, gives the same outcome"""
    e = try_build(src)
    if e is None:
        return
    try:
        parser = e.finalize()
    except Exception:
        return
    fresh = try_build(src)
    for x, how in ((fresh, outcome), (e, lambda x, t: full(attempt(x, t, 0))), (parser, outcome)):
        first = [how(x, t) for t in texts]
        for t, u in zip(reversed(texts), uses * len(texts)):
            use(x, t, u)
        second = [how(x, t) for t in texts]
        for t, a, b in zip(texts, first, second):
            h.count((src, t) if a[0] == "match" else None)
            if a != b:
                return "%s on %r: first %r, after other parses %r" % (src, t, a, b)
            c = how(x, "".join(list(t)))
            if c != a:
                return "%s on an equal text %r: first %r, then %r" % (src, t, a, c)


def outcome(parser, t):
    o = text_outcome(parser.parse, t)
    if isinstance(o, Ok):
        r = o.raw
        return ("match", r.start, r.end, repr(canon(r)), tuple(names(r)))
    return full(o)


@case
def pending(h, i, j):
    """a sequence that ends in ... keeps doing so"""
    L = ENV["Literal"]
    xs = [L("a") + (L("b") + ...), L("a") + (L("b") | ...), (L("a") + L("b")) + ...]
    if i == 2:
        mk = lambda c: xs[2] + L(c)
    else:
        mk = lambda c: xs[i] + L(c)
    y, z = mk("c"), mk("d")
    for g, t, want in [(y, "a b zz c", True), (y, "a b zz d", False), (z, "a b zz d", True), (z, "a b zz c", False)]:
        h.count((i, t))
        got = attempt(g, t, 0)
        if isinstance(got, Ok) != want:
            return "the sequence %d + ... used twice: %r on %r, expected %s" % (i, got, t, want)


def main(h):
    rng = h.rng
    for i in range(3):
        h.run(pending, i, 0)
    for _ in h.loop(1500):
        src = expr(rng, rng.choice([0, 1, 1, 2, 2, 3]))
        if rng.random() < 0.4:
            src += rng.choice(['.add_parse_action(lambda t: ["act"])', '("own")', '.add_condition(lambda t: len(list(t)) < 3)', ".suppress()"])
        k = rng.choice([1, 2, 4])
        h.run(deriving, src, [rng.choice(DERIVE) for _ in range(k)], [rng.choice(USE) for _ in range(k)], texts_for(rng, 7))
    for _ in h.loop(500):
        src = expr(rng, rng.choice([1, 2, 3]))
        if rng.random() < 0.2:
            # nested, an order that only one match-all of all accepts
            src = "(" + " & ".join('Many(Literal(%r), min_match=1, max_match=%d)' % (c, rng.choice([1, 2, 2])) for c in rng.sample("ab1(", 3)) + ")"
        h.run(again, src, texts_for(rng, 8), [rng.choice(USE) for _ in range(4)])
