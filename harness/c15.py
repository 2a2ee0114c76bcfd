from lib import *
from mo_parsing.results import ForwardResults

RULE = ("results of random grammars (with groups, names, forwards, suppressions, dictionaries, look-aheads, actions) on random "
        "texts, and every result inside them, all sequence views against one walk over the raw tokens; non-trivial: a "
        "result with tokens, keyed by grammar, text and path")


def vis(r):
    """the visible items of a result: one walk over the raw tokens"""
    out = []
    for t in r.tokens:
        if isinstance(t, Annotation):
            continue
        if not isinstance(t, ParseResults):
            out.append(t)
        elif isinstance(t.type, Group):
            out.append(t)
        else:
            out.extend(vis(t))
    return out


def body(r):
    """a forward's result stands for the one result it holds"""
    while isinstance(r, ForwardResults):
        r = r.tokens[0]
    return r


def items_of(r):
    return vis(body(r))


def nested(r, depth=0):
    return [nested(x) if isinstance(x, ParseResults) else x for x in items_of(r)]


def flat(r):
    out = []
    for x in items_of(r):
        out += flat(x) if isinstance(x, ParseResults) else [x]
    return out


def every(r, path=()):
    yield path, r
    for i, t in enumerate(r.tokens):
        if isinstance(t, ParseResults):
            yield from every(t, path + (i,))


def ident(xs):
    return [id(x) if isinstance(x, ParseResults) else x for x in xs]


def check(h, r, where, strings=True):
    if isinstance(r, Annotation):
        return
    want = items_of(r)
    w = ident(want)
    n = len(want)
    if ident(list(r)) != w:
        return "%s: iteration gives %r, the tokens are %r" % (where, list(r), want)
    if len(r) != n or r.length() != n:
        return "%s: length is %r (%r), %d items are iterated" % (where, len(r), r.length(), n)
    if n and not bool(r):
        return "%s: false, but has items %r" % (where, want)
    if not n and bool(r):
        # only names and groups can make it true
        if not any(isinstance(t, Annotation) or t.name or isinstance(t.type, Group) for _, t in every(r)):
            return "%s: true, without an item" % where
    for i in range(-n, n):
        if ident([r[i]]) != ident([want[i]]):
            return "%s: index %d gives %r, expected %r" % (where, i, r[i], want[i])
    for s in [slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, n, 2), slice(-2, None), slice(1, 100), slice(2, 1)]:
        got = r[s]
        if ident(list(got)) != ident(want[s]):
            return "%s: slice %r gives %r, expected %r" % (where, s, got, want[s])
    L = nested(r)
    if isinstance(body(r).type, Group):
        L = [L]
    if r.as_list() != L:
        return "%s: as_list gives %r, expected %r" % (where, r.as_list(), L)
    if strings:
        f = flat(r)
        for sep in ("", "-"):
            if all(isinstance(x, str) for x in f) and r.as_string(sep) != sep.join(f):
                return "%s: as_string(%r) gives %r, expected %r" % (where, sep, r.as_string(sep), sep.join(f))


@case
def views(h, src, texts):
    e = try_build(src)
    if e is None:
        return
    for t in texts:
        for how in ("element", "parser"):
            if how == "element":
                o = attempt(e, t, 0)
                r = o.raw if isinstance(o, Ok) else None
            else:
                try:
                    r = e.parse(t)
                except Timeout:
                    raise
                except Exception:
                    r = None
            if not isinstance(r, ParseResults):
                continue
            for path, x in every(r):
                h.count((src, t, path) if x.tokens else None)
                msg = check(h, x, "%s on %r (%s, inner result %s)" % (src, t, how, list(path)))
                if msg:
                    return msg


def mk(tree):
    """a result from a description: str | ["kind", name, children]"""
    if not isinstance(tree, (list, tuple)):
        return tree
    kind, name, kids = tree
    kids = [mk(k) for k in kids]
    E = ENV["Empty"]
    if kind == "A":
        return Annotation(name or "a", 0, 0, kids)
    typ = {"P": lambda: E(), "G": lambda: Group(E()), "D": lambda: ENV["Dict"](E()), "F": lambda: ENV["Forward"](E())}[kind]()
    if name:
        typ = typ(name)
    if kind == "F":
        if len(kids) != 1 or not isinstance(kids[0], ParseResults):
            kids = [ParseResults(E(), 0, 0, kids, [])]
        return ForwardResults(typ, 0, 0, kids, [])
    return ParseResults(typ, 0, 0, kids, [])


def rand_tree(rng, depth, top=False):
    if not top and (depth <= 0 or rng.random() < 0.3):
        return rng.choice(["a", "b", "", "c", 1, 0, None, False, 2.5]) if rng.random() < 0.3 else rng.choice("abc")
    kind = rng.choice("PPPPPPGGGGGDFFAA" if not top else "PPPGF")
    name = rng.choice(["", "", "", "n", "m", "k"])
    if kind == "F":
        return ["F", name, [[rng.choice("PPG"), rng.choice(["", "", "n", "m"]), [rand_tree(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]]]]
    return [kind, name, [rand_tree(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]]


@case
def built(h, tree):
    r = mk(tree)
    h.count(repr(tree))
    for path, x in every(r):
        msg = check(h, x, "result %s, inner result %s" % (tree, list(path)))
        if msg:
            return msg


def rich(rng, depth):
    """expressions with many names, groups and forwards"""
    if depth <= 0:
        return rng.choice(['Literal("a")', 'Literal("b")', 'Word("ab")', 'Char("ab")', 'Literal("a")("n")', 'Char("ab")("m")',
                           'Literal("a").suppress()', 'Empty()("k")', 'Empty()', 'AnyChar()("n")', 'LookAhead(Literal("a")("x"))'])
    x, y = rich(rng, depth - 1), rich(rng, depth - 1)
    k = rng.randrange(15)
    if k < 3:
        return "(%s + %s)" % (x, y)
    if k < 5:
        return "Group(%s)" % x
    if k < 7:
        return "Group(%s)(%r)" % (x, rng.choice("nmk"))
    if k == 7:
        return "(%s | %s)" % (x, y)
    if k == 8:
        return "ZeroOrMore(%s)" % x
    if k == 9:
        return "OneOrMore(%s)(%r)" % (x, rng.choice("nmk"))
    if k == 10:
        return "Forward(%s)" % x
    if k == 11:
        return "Forward(%s)(%r)" % (x, rng.choice("nmk"))
    if k == 12:
        return "(%s)(%r)" % (x, rng.choice("nmk"))
    if k == 13:
        return "Optional(%s)(%r)" % (x, rng.choice("nmk"))
    return "(%s).add_parse_action(%s)" % (x, rng.choice(["lambda t: list(t)", "lambda t: None", "lambda t: 'v'", "lambda t: [1, 'w']", "lambda t: []"]))


def main(h):
    rng = h.rng
    for _ in h.loop(2500):
        h.run(built, rand_tree(rng, rng.choice([1, 2, 3, 4]), True))
    for _ in h.loop(900):
        src = expr(rng, rng.choice([1, 2, 3])) if rng.random() < 0.4 else rich(rng, rng.choice([1, 2, 3, 4]))
        h.run(views, src, texts_for(rng, 6) + [rand_text(rng, "ab", 10) for _ in range(3)])
