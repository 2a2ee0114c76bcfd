from lib import *
from mo_parsing.results import ForwardResults, NO_RESULTS
from c15 import every, mk, rand_tree, rich, items_of

RULE = ("results built from random trees and results of random grammars, lookup by every name in use (and one that is not) "
        "against one walk of the open scope; non-trivial: a name with a value, keyed by result and name")
NAMES = ["n", "m", "k", "x", "a", "nope"]


def through(t):
    """an unnamed forward stands for the result it holds"""
    while isinstance(t, ForwardResults) and not t._type.token_name:
        t = t.tokens[0]
    return t


def name_of(t):
    return t._type.token_name


def inner_flat(t):
    """items of a value: opened, but groups and named results kept"""
    t = through(t) if isinstance(t, ParseResults) else t
    if not isinstance(t, ParseResults) or isinstance(t.type, Group) or name_of(t):
        return [t]
    return [x for k in t.tokens for x in inner_flat(k)]


def find(r, name):
    if isinstance(r, ForwardResults):
        # what it holds is its open scope: its name, and the names in it
        inner = r.tokens[0]
        if name_of(inner) == name:
            return find_in([inner], name)
        return find(inner, name)
    return find_in(r.tokens, name)


def scope_of(r):
    if isinstance(r, ForwardResults):
        return [name_of(r.tokens[0])] + scope_of(r.tokens[0])
    return names_in(r.tokens, [])


def find_in(tokens, name):
    out = []
    for t in tokens:
        if not isinstance(t, ParseResults):
            continue
        t = through(t)
        if name_of(t) == name:
            if isinstance(t.type, Group):
                out.append(t)
            else:
                out += [x for k in t.tokens for x in inner_flat(k)]
        elif name_of(t) or isinstance(t.type, Group):
            continue
        else:
            out += find_in(t.tokens, name)
    return out


def names_in(tokens, out):
    """names with a result in the open scope"""
    for t in tokens:
        if not isinstance(t, ParseResults):
            continue
        t = through(t)
        if name_of(t):
            out.append(name_of(t))
        elif not isinstance(t.type, Group):
            names_in(t.tokens, out)
    return out


def value_key(v):
    """what the user sees of a value"""
    if isinstance(v, ParseResults):
        v = through(v)
        return ("R", isinstance(v.type, Group), tuple(value_key(x) for x in items_of(v)), v.start, v.end)
    return repr(v)


def look(r, name):
    v = r[name]
    if v is NO_RESULTS:
        return []
    if isinstance(v, ParseResults) and v.type is ENV_NO_PARSER:
        return list(v.tokens)
    return [v]


from mo_parsing.core import NO_PARSER as ENV_NO_PARSER


def check(h, r, where):
    if isinstance(r, Annotation):
        return
    listed = list(r.keys())
    pairs = list(r.items())
    vals = list(r.values())
    if len(set(listed)) != len(listed):
        return "%s: a name is listed twice: %r" % (where, listed)
    if [k for k, v in pairs] != listed or len(vals) != len(pairs) or any(a is not b[1] and a != b[1] for a, b in zip(vals, pairs)):
        return "%s: keys %r, items %r and values %r do not agree" % (where, listed, pairs, vals)
    for name in NAMES:
        want = find(r, name)
        got = look(r, name)
        h.count((where, name) if want else None)
        if [value_key(x) for x in got] != [value_key(x) for x in want]:
            return "%s: [%r] gives %r, expected %r" % (where, name, got, want)
        present = any(not (x is None or x == "") if not isinstance(x, ParseResults) else True for x in want)
        if len(want) == 1 and isinstance(want[0], ParseResults):
            present = None     # an empty group is a value
        if present is not None and (name in r) is not (len(want) > 0) and (name in r) is not present:
            return "%s: %r in result is %r, its values are %r" % (where, name, name in r, want)
        if name in r:
            if value_key(r.get(name)) != value_key(r[name]) or value_key(r.get(name, "zz")) != value_key(r[name]):
                return "%s: get(%r) gives %r, lookup gives %r" % (where, name, r.get(name), r[name])
        elif r.get(name) is not None or r.get(name, "zz") != "zz":
            return "%s: %r is not in the result, but get gives %r" % (where, name, r.get(name, "zz"))
        if want and name not in listed:
            return "%s: %r has the value %r, but is not listed: %r" % (where, name, want, listed)
        if len(want) > 1:
            v = r[name]
            if not isinstance(v, ParseResults) or [value_key(x) for x in v.tokens] != [value_key(x) for x in want]:
                return "%s: [%r] gives %r, expected all of %r" % (where, name, v, want)
    scope = scope_of(r)
    for k in listed:
        if k not in scope:
            return "%s: the name %r is listed, but no result in the open scope carries it: %r" % (where, k, scope)


@case
def built(h, tree):
    r = mk(tree)
    for path, x in every(r):
        msg = check(h, x, "result %s, inner result %s" % (tree, list(path)))
        if msg:
            return msg


@case
def parsed(h, src, texts):
    e = try_build(src)
    if e is None:
        return
    for t in texts:
        for how in ("element", "parser"):
            if how == "element":
                o = attempt(e, t, 0)
                r = o.raw if isinstance(o, Ok) else None
            else:
                try:
                    r = e.parse(t)
                except Timeout:
                    raise
                except Exception:
                    r = None
            if not isinstance(r, ParseResults):
                continue
            for path, x in every(r):
                msg = check(h, x, "%s on %r (%s, inner result %s)" % (src, t, how, list(path)))
                if msg:
                    return msg


@case
def transparent(h, src, name, texts):
    """a forward finds the names its definition finds"""
    a, b = try_build("Group(%s)" % src), try_build("Group(Forward(%s))" % src)
    if a is None or b is None:
        return
    for t in texts:
        x, y = attempt(a, t, 0), attempt(b, t, 0)
        if not isinstance(x, Ok) or not isinstance(y, Ok):
            continue
        p, q = look(x.raw, name), look(y.raw, name)
        h.count((src, name, t) if p else None)
        if [value_key(v) for v in p] != [value_key(v) for v in q]:
            return "%s on %r: [%r] gives %r, through a forward %r" % (src, t, name, p, q)


def main(h):
    rng = h.rng
    for _ in h.loop(2500):
        h.run(built, rand_tree(rng, rng.choice([1, 2, 3, 4]), True))
    for _ in h.loop(900):
        src = expr(rng, rng.choice([1, 2, 3])) if rng.random() < 0.2 else rich(rng, rng.choice([1, 2, 3, 4]))
        h.run(parsed, src, texts_for(rng, 6) + [rand_text(rng, "ab", 10) for _ in range(3)])
    for _ in h.loop(400):
        h.run(transparent, rich(rng, rng.choice([1, 2, 3])), rng.choice(NAMES[:3]), texts_for(rng, 8))
