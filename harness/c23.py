from lib import *

RULE = ("random operator tables (prefix, suffix, binary and ternary, both associativities, suppressed ones, shared symbols, "
        "actions) x random expressions with parentheses, against a binding-power parser; non-trivial: an expression with "
        "two or more operators, keyed by table and text")
SYMBOLS = ["+", "-", "*", "/", "^", "!", "%", "=", "and", "<", "<="]


def table(rng):
    """-> list of [symbol or pair, arity, 'L'/'R', suppressed, action]"""
    syms = SYMBOLS[:]
    rng.shuffle(syms)
    rows = []
    for _ in range(rng.choice([1, 2, 3, 3, 4, 5])):
        k = rng.random()
        if k < 0.16:
            rows.append([syms.pop(), 1, "R", rng.random() < 0.15, rng.random() < 0.2])
        elif k < 0.3:
            rows.append([syms.pop(), 1, "L", rng.random() < 0.15, rng.random() < 0.2])
        elif k < 0.42 and not any(r[1] == 3 for r in rows):
            rows.append([["?", ":"], 3, rng.choice("LR"), rng.choice([0, 0, 1, 2, 3]), rng.random() < 0.2])
        else:
            rows.append([syms.pop(), 2, rng.choice("LLR"), rng.random() < 0.15, rng.random() < 0.2])
        if len(syms) < 2:
            break
    # an operator that begins another is found by the longest match between infix operators only
    rows = [r for r in rows if r[1] > 1 or r[0] not in ("<", "<=", "=")] or [["+", 2, "L", False, False]]
    # prefix and suffix operators bind tighter than the others (see C23)
    rows.sort(key=lambda r: r[1] > 1)
    for r in rows:
        if r[4] and rng.random() < 0.4:
            r[4] = 2
    # a symbol both prefix and binary
    both = [r for r in rows if r[1] == 2 and not r[3] and r[0] not in ("<", "<=", "=")]
    if both and rng.random() < 0.25:
        rows.insert(rng.randrange(sum(r[1] == 1 for r in rows) + 1), [rng.choice(both)[0], 1, "R", False, False])
    return rows


def make(rows, calls=None):
    E = ENV
    def act(i):
        def run(tokens):
            if calls is not None:
                calls.append(i)
        def replace(tokens):
            run(tokens)
            return "n%d" % i
        def after(tokens):
            # runs on what the action before it made
            if calls is not None and [str(t) for t in tokens] != ["n%d" % i]:
                calls.append("after %s" % list(tokens))
        if rows[i][4] == 2:
            return [replace, after]
        return run
    spec = []
    for i, (op, arity, assoc, sup, action) in enumerate(rows):
        # a ternary operator: which of its two symbols are suppressed, as bits
        o = tuple(E["Suppress"](x) if sup >> k & 1 else x for k, x in enumerate(op)) if isinstance(op, list) else (E["Suppress"](op) if sup else op)
        row = (o, arity, LEFT_ASSOC if assoc == "L" else RIGHT_ASSOC)
        if action:
            row += (act(i),)
        spec.append(row)
    return infix_notation(E["Word"]("xyz01") , spec)


class Bad(Exception):
    pass


class Pratt(object):
    """binding powers: the first row binds tightest"""

    def __init__(self, rows, toks):
        self.rows, self.toks, self.i, self.n = rows, toks, 0, len(rows)
        self.calls = []

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise Bad()
        self.i += 1
        return t

    def node(self, row, parts):
        if self.rows[row][4]:
            self.calls.append(row)
        if self.rows[row][4] == 2:
            # its actions put this in the place of the node
            return ("G", ["n%d" % row])
        return ("G", parts)

    def find(self, symbol, kind):
        for i, (op, arity, assoc, sup, action) in enumerate(self.rows):
            k = {1: "prefix" if assoc == "R" else "suffix", 2: "infix", 3: "infix"}[arity]
            if k == kind and (op[0] if arity == 3 else op) == symbol:
                return i
        return None

    def parse(self, least):
        t = self.next()
        row = self.find(t, "prefix")
        if row is not None:
            x = self.parse(self.n - row)
            left = self.node(row, [x] if self.rows[row][3] else [t, x])
        elif t == "(":
            left = self.parse(0)
            if self.next() != ")":
                raise Bad()
        elif t[0] in "xyz01":
            left = t
        else:
            raise Bad()
        while True:
            t = self.peek()
            if t is None:
                return left
            row = self.find(t, "suffix")
            if row is not None:
                if self.n - row < least:
                    return left
                self.next()
                left = self.node(row, [left] if self.rows[row][3] else [left, t])
                continue
            row = self.find(t, "infix")
            if row is None:
                return left
            op, arity, assoc, sup, action = self.rows[row]
            power = self.n - row
            if power < least:
                return left
            self.next()
            if arity == 2:
                right = self.parse(power + (assoc == "L"))
                left = self.node(row, [left, right] if sup else [left, t, right])
            else:
                mid = self.parse(power)
                if self.next() != ":":
                    raise Bad()
                right = self.parse(power + (assoc == "L"))
                left = self.node(row, [left] + ["?"] * (not sup & 1) + [mid] + [":"] * (not sup & 2) + [right])


def gen(rng, rows, depth):
    """a random expression as tokens"""
    def operand(d):
        out = []
        pre = [r for r in rows if r[1] == 1 and r[2] == "R"]
        suf = [r for r in rows if r[1] == 1 and r[2] == "L"]
        while pre and rng.random() < 0.25:
            out.append(rng.choice(pre)[0])
        if d > 0 and rng.random() < 0.3:
            out += ["("] + gen(rng, rows, d - 1) + [")"]
        else:
            out.append(rng.choice(["x", "y", "z", "0", "1", "x1"]))
        while suf and rng.random() < 0.25:
            out.append(rng.choice(suf)[0])
        return out
    toks = operand(depth)
    inf = [r for r in rows if r[1] > 1]
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]) if inf else 0):
        r = rng.choice(inf)
        if r[1] == 2:
            toks += [r[0]] + operand(depth)
        else:
            toks += ["?"] + operand(depth) + [":"] + operand(depth)
    return toks


def flat(x, out):
    if isinstance(x, tuple):
        for y in x[1]:
            flat(y, out)
    else:
        out.append(x)
    return out


@case
def trees(h, rows, exprs, whole):
    calls = []
    e = make(rows, calls)
    for toks in exprs:
        text = " ".join(toks)
        if not whole:
            text = text.replace("( ", "(").replace(" )", ")")
        p = Pratt(rows, toks)
        try:
            want = p.parse(0)
            if p.peek() is not None:
                raise Bad()
        except Bad:
            continue
        except RecursionError:
            continue
        del calls[:]
        got = attempt(e, text, 0)
        h.count((repr(rows), text) if isinstance(want, tuple) else None)
        where = "operators %s on %r" % (rows, text)
        if not isinstance(got, Ok):
            return "%s: %r, expected %r" % (where, got, want)
        if got.end != len(text):
            return "%s: matched up to %d only" % (where, got.end)
        if got.toks != [want]:
            return "%s: tree %r, expected %r" % (where, got.toks, [want])
        # every operand and unsuppressed operator, once, in order
        sup = [s for r in rows if r[3] for k, s in enumerate(r[0] if isinstance(r[0], list) else [r[0]]) if r[1] < 3 or r[3] >> k & 1]
        seen = flat(("G", got.toks), [])
        if not any(t in sup for t in toks) and not any(r[4] == 2 for r in rows) and seen != [t for t in toks if t not in "()"]:
            return "%s: tokens of the tree %r" % (where, seen)
        if any(isinstance(c, str) for c in calls):
            return "%s: the second action of a row was given %r" % (where, calls)
        if sorted(calls) != sorted(p.calls):
            return "%s: actions of rows %r ran, expected %r" % (where, sorted(calls), sorted(p.calls))


@case
def ends(h, rows, texts):
    """any text: a match or a failure, in time"""
    e = make(rows)
    for t in texts:
        got = attempt(e, t, 0)
        h.count((repr(rows), t) if isinstance(got, Ok) else None)
        if isinstance(got, Other):
            return "operators %s on %r: %r" % (rows, t, got)
        if isinstance(got, Ok):
            if any(r[4] == 2 for r in rows):
                continue
            seen = flat(("G", got.toks), [])
            rest = t[:got.end]
            for s in seen:
                k = rest.find(s)
                if k < 0:
                    return "operators %s on %r: the tree has %r, not in the order of the text" % (rows, t, seen)
                rest = rest[k + len(s):]


def main(h):
    rng = h.rng
    for _ in h.loop(500):
        rows = table(rng)
        h.run(trees, rows, [gen(rng, rows, 2) for _ in range(8)], rng.random() < 0.7)
    for _ in h.loop(150):
        rows = table(rng)
        syms = [s for r in rows for s in (r[0] if isinstance(r[0], list) else [r[0]])] + ["x", "y", "1", "(", ")"]
        h.run(ends, rows, [" ".join(rng.choice(syms) for _ in range(rng.randrange(7))) for _ in range(8)])
