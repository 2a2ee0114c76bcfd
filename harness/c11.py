from lib import *

RULE = ("random expressions with chains of 1..4 actions and conditions (returning nothing, values, lists, tuples, "
        "results, raising parse failures, of every arity, added in one call, several calls or by '/') x texts x "
        "positions x actions on/off, against folding the chain over the plain match; non-trivial: a chain that ran, "
        "keyed by grammar, chain, text, position")


def is_forward(e):
    """a forward declaration takes its actions in place"""
    return type(e).__name__ == "Forward"


class Chain(object):
    """records what every action was given"""

    def __init__(self, kinds, arities):
        self.kinds, self.arities, self.log = kinds, arities, []

    def action(self, i):
        kind, arity = self.kinds[i], self.arities[i]

        def body(tokens, index=None, string=None):
            self.log.append((i, tokens.start, tokens.end, repr(canon(tokens)) if not isinstance(tokens, str) else tokens, index, string))
            if kind == "none":
                return None
            if kind == "same":
                return tokens
            if kind == "value":
                return "v%d" % i
            if kind == "zero":
                return 0
            if kind == "false":
                return False
            if kind == "empty":
                return []
            if kind == "list":
                return ["l%d" % i, "m"]
            if kind == "tuple":
                return ("t%d" % i,)
            if kind == "result":
                return ParseResults(tokens.type, tokens.start, tokens.end, ["r%d" % i], [])
            if kind == "raise":
                raise ParseException(tokens.type, tokens.start, string or "", msg="refused")
            if kind == "odd":
                if tokens.start % 2:
                    raise ParseException(tokens.type, tokens.start, string or "", msg="refused")
                return None
            raise AssertionError(kind)

        if arity == 0:
            return lambda: body(_Fake()) if False else NOARG[kind]()
        if arity == 1:
            return lambda tokens: body(tokens)
        if arity == 2:
            return lambda tokens, index: body(tokens, index)
        if arity == 3:
            return lambda tokens, index, string: body(tokens, index, string)
        if arity == 4:
            return lambda *args: body(*args)
        class C(object):
            def __call__(self, tokens, index, string):
                return body(tokens, index, string)
            def meth(self, tokens, index, string):
                return body(tokens, index, string)
        return C().meth


class _Fake(object):
    start = end = 0


NOARG = {"none": lambda: None, "value": lambda: "v", "list": lambda: ["l"], "empty": lambda: [], "zero": lambda: 0}
KINDS = ["none", "none", "same", "value", "zero", "false", "empty", "list", "tuple", "result", "raise", "odd"]


def replace(kind, i, toks, start, noarg):
    """-> (tokens, ok)"""
    if kind in ("none", "same"):
        return toks, True
    if noarg:
        return {"value": ["v"], "list": ["l"], "empty": [], "zero": [0]}[kind], True
    return {"value": (["v%d" % i], True), "zero": ([0], True), "false": ([False], True), "empty": ([], True),
            "list": (["l%d" % i, "m"], True), "tuple": (["t%d" % i], True), "result": (["r%d" % i], True),
            "raise": (None, False), "odd": (toks, start % 2 == 0)}[kind]


@case
def chain(h, src, kinds, arities, how, during_try, texts):
    c = Chain(kinds, arities)
    plain, e = try_build(src), try_build(src)
    if plain is None or plain.parse_action or is_forward(plain):
        return
    acts = [c.action(i) for i in range(len(kinds))]
    if how == "one":
        e = e.add_parse_action(*acts, callDuringTry=during_try)
    elif how == "each":
        for a in acts:
            e = e.add_parse_action(a, callDuringTry=during_try)
    elif how == "kept":
        # the mark given once stays whatever is derived afterwards
        during_try = True
        e = e.add_parse_action(acts[0], callDuringTry=True)
        for a in acts[1:]:
            e = e.add_parse_action(a)
        e = e.copy()
    else:
        during_try = False
        for a in acts:
            e = e / a
    group = isinstance(plain, Group)
    for t in texts:
        for p in range(len(t) + 1):
            for act in (True, False):
                o = attempt(plain, t, p, act)
                if isinstance(o, Other):
                    continue
                runs = act or during_try
                want, log = o, []
                if isinstance(o, Ok) and runs:
                    toks = canon(o.raw)
                    for i, k in enumerate(kinds):
                        if arities[i]:
                            log.append((i, o.start, o.end, repr(toks), o.start if arities[i] >= 2 else None, t if arities[i] >= 3 else None))
                        toks, ok = replace(k, i, toks, o.start, arities[i] == 0)
                        if not ok:
                            want = Fail()
                            break
                    else:
                        want = Ok(o.start, o.end, [("G", toks)] if group else toks)
                del c.log[:]
                got = attempt(e, t, p, act)
                h.count((src, tuple(kinds), t, p) if log else None)
                where = "%s with actions %s (arities %s, %s, actions %s) at %d of %r" % (src, kinds, arities, how, "on" if act else "off", p, t)
                if c.log != log:
                    return "%s: actions saw %r, expected %r" % (where, c.log, log)
                if not same(got, want):
                    return "%s: got %r, expected %r" % (where, got, want)


@case
def condition(h, src, conds, how, texts):
    """conds: list of values the conditions return"""
    values = {"T": True, "F": False, "1": 1, "0": 0, "s": "x", "e": "", "l": [1], "le": [], "lF": [False]}
    seen = []
    def mk(i, v):
        def f(tokens, index, string):
            seen.append((i, tokens.start, index, string))
            return values[v]
        return f
    plain, e = try_build(src), try_build(src)
    if plain is None or is_forward(plain) or how in ("try", "kept") and plain.parse_action:
        return
    fns = [mk(i, v) for i, v in enumerate(conds)]
    if how == "one":
        e = e.add_condition(*fns)
    elif how == "try":
        e = e.add_condition(*fns, callDuringTry=True)
    elif how == "kept":
        e = e.add_condition(fns[0], callDuringTry=True)
        for f in fns[1:]:
            e = e.add_condition(f)
    else:
        for f in fns:
            e = e.add_condition(f, message="no")
    truth = [v in ("T", "1", "s", "l") for v in conds]
    stop = truth.index(False) + 1 if False in truth else len(truth)
    for t in texts:
        for p in range(len(t) + 1):
            for act in (True, False):
                o = attempt(plain, t, p, act)
                if isinstance(o, Other):
                    continue
                del seen[:]
                got = attempt(e, t, p, act)
                runs = act or how in ("try", "kept")
                log = [(i, o.start, o.start, t) for i in range(stop)] if runs and isinstance(o, Ok) else []
                want = o if not log or all(truth) else Fail()
                h.count((src, tuple(conds), t, p) if log else None)
                if seen != log:
                    return "%s with conditions %s (%s) at %d of %r: conditions saw %r, expected %r" % (src, conds, how, p, t, seen, log)
                if not same(got, want):
                    return "%s with conditions %s (%s) at %d of %r: got %r, expected %r" % (src, conds, how, p, t, got, want)


@case
def out_of_span(h, src, ds, de, texts):
    """a result that leaves the span, or ends before it, is an error and not a match"""
    plain, e = try_build(src), try_build(src)
    if plain is None or is_forward(plain):
        return
    e = e.add_parse_action(lambda tokens: ParseResults(tokens.type, tokens.start + ds, tokens.end + de, ["z"], []))
    for t in texts:
        for p in range(len(t) + 1):
            o = attempt(plain, t, p)
            if not isinstance(o, Ok):
                continue
            got = attempt(e, t, p)
            h.count((src, ds, de, t, p))
            s, n = o.start + ds, o.end + de
            if n == -1:
                continue
            if s < o.start or n > o.end or n < o.end:
                if not isinstance(got, Other):
                    return "%s with an action returning the span %+d%+d at %d of %r: got %r, expected an error" % (src, ds, de, p, t, got)
            elif not isinstance(got, Ok) or (got.start, got.end, canon(got.raw)) != (s, n, ["z"]):
                return "%s with an action returning the span %+d%+d at %d of %r: got %r" % (src, ds, de, p, t, got)


@case
def forward_actions(h, kinds, named, texts):
    """a forward declaration and its copies run an action once"""
    for deriv in range(2):
        c = Chain(kinds, [3] * len(kinds))
        f = ENV["Forward"]()
        f << ENV["Word"]("ab")
        plain = ENV["Forward"](ENV["Word"]("ab"))
        first_ = kinds[:1] if named else kinds
        for i in range(len(first_)):
            f.add_parse_action(c.action(i))
        e = f("n") if named else f
        if deriv == 1:
            e = e("m")
        for i in range(len(first_), len(kinds)):
            e = e / c.action(i)
        for t in texts:
            for p in range(len(t) + 1):
                del c.log[:]
                o, got = attempt(plain, t, p), attempt(e, t, p)
                h.count((tuple(kinds), named, deriv, t, p) if isinstance(o, Ok) else None)
                want, ran = [], isinstance(got, Ok)
                toks, good = (canon(o.raw), True) if isinstance(o, Ok) else (None, False)
                if good:
                    for i, k in enumerate(kinds):
                        want.append(i)
                        toks, good = replace(k, i, toks, o.start, False)
                        if not good:
                            break
                if [x[0] for x in c.log] != want:
                    return "forward with actions %s, derivation %d, at %d of %r: actions ran %r, expected %r" % (kinds, deriv, p, t, [x[0] for x in c.log], want)
                if isinstance(got, Ok) != good or good and got.toks != toks:
                    return "forward with actions %s, derivation %d, at %d of %r: got %r, expected %r" % (kinds, deriv, p, t, got, toks if good else "no match")


@case
def nested_order(h, texts):
    """inner actions run before outer ones, left before right, once each for the match that is used"""
    log = []
    def rec(n):
        return lambda tokens, index, string: log.append((n, string[tokens.start:tokens.end]))
    a = ENV["Word"]("a") / rec("a")
    b = ENV["Word"]("b") / rec("b")
    c = (ENV["Word"]("c") / rec("c"))
    e = ((a + b) / rec("ab") | (a + c) / rec("ac")) / rec("top")
    look = ENV["LookAhead"](a) + (~c + a)
    for t in texts:
        del log[:]
        o = attempt(e, t, 0)
        h.count(t)
        want = None
        m = __import__("re").match("(a+) ?(b+|c+)", t)
        if m:
            x, y = m.group(1), m.group(2)
            want = ([("a", x)] if y[0] == "c" else []) + [("a", x), (y[0], y), ("a" + y[0], m.group(0)), ("top", m.group(0))]
            if log != want or not isinstance(o, Ok):
                return "on %r: actions ran %r, expected %r" % (t, log, want)


def main(h):
    rng = h.rng
    h.run(nested_order, all_texts("abc ", 4))
    for _ in h.loop(60):
        h.run(forward_actions, [rng.choice(KINDS) for _ in range(rng.choice([1, 2, 3]))], rng.random() < 0.6, texts_for(rng, 6))
    for _ in h.loop(2600):
        src = leaf(rng, 0.1) if rng.random() < 0.6 else expr(rng, 2)
        if src.startswith("Forward"):
            src = 'Literal("a")'
        n = rng.choice([1, 1, 2, 2, 3, 4])
        kinds = [rng.choice(KINDS) for _ in range(n)]
        arities = [rng.choice([1, 2, 3, 4, 5, 0]) for _ in range(n)]
        arities = [a if a or k in NOARG else 1 for a, k in zip(arities, kinds)]
        ts = texts_for(rng, 8)
        x = rng.random()
        if x < 0.6:
            h.run(chain, src, kinds, arities, rng.choice(["one", "each", "slash", "kept"]), rng.random() < 0.3, ts)
        elif x < 0.85:
            h.run(condition, src, [rng.choice(["T", "T", "1", "s", "l", "F", "0", "e", "le", "lF"]) for _ in range(n)], rng.choice(["one", "each", "try", "kept"]), ts)
        else:
            h.run(out_of_span, src, rng.choice([-1, 0, 0, 1]), rng.choice([-1, 0, 0, 1]), ts[:5])
