from lib import *
from mo_parsing.results import ForwardResults, NO_RESULTS
from c15 import every, mk, rand_tree, rich, items_of
from c16 import NAMES, look, value_key, find, through, name_of

RULE = ("results built from random trees and results of random grammars, every name set to texts, lists, results and "
        "nothing, or deleted, all names looked up before and after, also a second time; non-trivial: an assignment to a "
        "result that has another name, keyed by result, name and value")
VALUES = ['"z"', '""', '["y", "z"]', '[]', 'None', '3', '("p",)', 'RESULT', 'GROUP', 'DEL', 'False']


def value_of(v):
    if v == "RESULT":
        return ParseResults(ENV["Empty"](), 3, 4, ["q", "r"], [])
    if v == "GROUP":
        return ParseResults(Group(ENV["Empty"]()), 3, 4, ["q"], [])
    return eval(v)


def expected(v):
    if v in ("RESULT",):
        return ["q", "r"]
    if v == "GROUP":
        return ["q"]
    if v in ("None", "DEL"):
        return []
    x = eval(v)
    return list(x) if isinstance(x, (list, tuple)) else [x]


def assign(r, name, v):
    if v == "DEL":
        del r[name]
    else:
        r[name] = value_of(v)


def see(xs):
    return [value_key(x) for x in xs]


def held_by(r):
    """-> names of the results a forward's result stands for, the last of them"""
    held = []
    while isinstance(r, ForwardResults):
        r = r.tokens[0]
        if name_of(r):
            held.append(name_of(r))
    return held, r


def groups_of(tokens, name, out):
    """what is in groups, other than in those called name"""
    for t in tokens:
        if isinstance(t, ParseResults):
            t = through(t)
            if name_of(t) == name:
                continue
            if isinstance(t.type, Group):
                out.append(value_key(t))
            elif not name_of(t):
                groups_of(t.tokens, name, out)
    return out


def step(h, r, name, v, where):
    where = "%s: [%r] = %s" % (where, name, v)
    before = {k: see(look(r, k)) for k in NAMES}
    held, b = held_by(r)
    groups = groups_of(b.tokens, name, [])
    try:
        assign(r, name, v)
    except Exception as e:
        return "%s raises %s: %s" % (where, type(e).__name__, e)
    h.count((where,) if any(before[k] for k in NAMES if k != name) else None)
    got = look(r, name)
    if len(got) == 1 and isinstance(got[0], ParseResults) and isinstance(got[0].type, Group):
        got = items_of(got[0])   # a group stays a group
    got = see(got)
    if got != [repr(x) for x in expected(v)]:
        return "%s: looking it up gives %r, expected %r" % (where, r[name], expected(v))
    if name not in held:      # names nested in the replaced result go with it
        for k in NAMES:
            if k in held and before[name]:
                continue      # the name is nested in that one
            if k != name and see(look(r, k)) != before[k]:
                return "%s changes [%r] from %r to %r" % (where, k, before[k], see(look(r, k)))
        g2 = groups_of(b.tokens, name, [])
        if g2 != groups:
            return "%s changes a group from %r to %r" % (where, groups, g2)
    if expected(v) and name not in list(r.keys()):
        return "%s: the name is not listed: %r" % (where, list(r.keys()))


def usable(r):
    return not isinstance(r, Annotation)


@case
def built(h, tree, steps):
    n = sum(1 for _ in every(mk(tree)))
    for i in range(n):
        r = mk(tree)
        path, x = list(every(r))[i]
        if not usable(x):
            continue
        for name, v in steps:
            msg = step(h, x, name, v, "result %s, inner result %s, assignments %s" % (tree, list(path), steps))
            if msg:
                return msg


@case
def parsed(h, src, texts, steps):
    e = try_build(src)
    if e is None:
        return
    for t in texts:
        try:
            r = e.parse(t)
        except Timeout:
            raise
        except Exception:
            continue
        if not isinstance(r, ParseResults):
            continue
        for name, v in steps:
            msg = step(h, r, name, v, "%s on %r, assignments %s" % (src, t, steps))
            if msg:
                return msg
        # the grammar is not changed by it
        try:
            again = e.parse(t)
        except Exception as ex:
            return "%s on %r: parsing again after assignments raises %r" % (src, t, ex)


def main(h):
    rng = h.rng
    mksteps = lambda: [[rng.choice(NAMES), rng.choice(VALUES)] for _ in range(rng.choice([1, 1, 2, 3]))]
    for _ in h.loop(5000):
        h.run(built, rand_tree(rng, rng.choice([1, 2, 3, 4]), True), mksteps())
    for _ in h.loop(900):
        h.run(parsed, rich(rng, rng.choice([1, 2, 3, 4])), texts_for(rng, 6) + [rand_text(rng, "ab", 10) for _ in range(3)], mksteps())
