from lib import *
from c12 import parser_of, skip_ref, text_outcome
from mo_parsing.exceptions import compare_causes, sort_causes
from mo_parsing import utils
import itertools

RULE = ("failures of random grammars on random texts with line breaks (and random trees of failures), position, line, column "
        "and marks against counting in the text, reported position against the furthest of all collected causes; "
        "non-trivial: a failure with causes, keyed by grammar and text")


def leaves(e, seen=None, depth=0):
    """positions of the failures nothing else caused"""
    cs = [c for c in _enlist(e.unsorted_cause) if isinstance(c, ParseException)]
    if not cs:
        return [e.start]
    return [p for c in cs for p in leaves(c, seen, depth + 1)]


def _enlist(v):
    if v is None:
        return []
    return list(v) if isinstance(v, (list, tuple)) else [v]


def position(e, text, where):
    loc = e.loc
    if e.string != text:
        return "%s: the failure is about %r" % (where, e.string)
    if not (isinstance(loc, int) and 0 <= loc <= len(text)):
        return "%s: position %r is outside the text" % (where, loc)
    before = text[:loc]
    lines = text.split("\n")
    n = before.count("\n")
    column = loc - (before.rfind("\n") + 1) + 1
    if e.lineno != n + 1 or utils.lineno(loc, text) != n + 1:
        return "%s: line number %r at %d, expected %d" % (where, e.lineno, loc, n + 1)
    if e.column != column or e.col != column or utils.col(loc, text) != column:
        return "%s: column %r at %d, expected %d" % (where, e.column, loc, column)
    if e.line != lines[n] or utils.line(loc, text) != lines[n]:
        return "%s: line %r at %d, expected %r" % (where, e.line, loc, lines[n])
    for mark in (">!<", "", "^"):
        want = (lines[n][:column - 1] + mark + lines[n][column - 1:]).strip()
        if e.mark_inputline(mark) != want or (mark == ">!<" and e.mark_inputline() != want):
            return "%s: marked line %r, expected %r" % (where, e.mark_inputline(mark), want)
    spot = "(at char %d), (line:%d, col:%d)" % (loc, n + 1, column)
    if spot not in e.message:
        return "%s: message %r does not say %s" % (where, e.message, spot)


@case
def reported(h, src, texts):
    g = parser_of(src)
    if g is None:
        return
    e, parser, white = g
    for t in texts:
        start = skip_ref(white, t, 0)
        for pa in (False, True):
            got = text_outcome(parser.parse, t, parse_all=pa)
            if not isinstance(got, Fail):
                continue
            exc = got.exc
            where = "%s on %r (parse_all=%s)" % (src, t, pa)
            h.count((src, t, pa) if exc.causes else None)
            msg = position(exc, t, where)
            if msg:
                return msg
            far = max(leaves(exc))
            if exc.loc != far:
                return "%s: reported at %d, but a cause is at %d" % (where, exc.loc, far)
            # the furthest of everything the attempt collected
            if not pa:
                inner = attempt(parser.element, t, start)
                if isinstance(inner, Fail):
                    far = max(leaves(inner.exc))
                    if exc.loc != far:
                        return "%s: reported at %d, but a failure was collected at %d" % (where, exc.loc, far)
            str(exc), repr(exc)


def mk(tree, text, i=None):
    """tree: [position, parser name, message, causes]"""
    p, name, msg, causes = tree
    x = ENV["Empty"]()
    x.parser_name = name
    return ParseException(x, p, text, msg=msg, cause=[mk(c, text) for c in causes] or None)


def attrs(e):
    return (e.loc, bool(e.expr.parser_name), bool(e._msg))


@case
def tree(h, root, text):
    e = mk(root, text)
    h.count(repr(root) if root[3] else None)
    where = "failures %s of %r" % (root, text)
    for x in (e, e.best_cause):
        msg = position(x, text, where)
        if msg:
            return msg
        if x.loc != max(leaves(e)):
            return "%s: %s at %d, but a cause is at %d" % (where, "reported" if x is not e else "placed", x.loc, max(leaves(e)))
    cs = e.causes
    if sorted(map(id, cs)) != sorted(map(id, _enlist(e.unsorted_cause))):
        return "%s: causes are lost" % where
    if [c.loc for c in cs] != sorted([c.loc for c in cs], reverse=True):
        return "%s: causes in order %r" % (where, [c.loc for c in cs])


@case
def ordering(h, roots, text):
    """compare_causes is a total preorder on (position, named, message)"""
    es = [mk(r, text) for r in roots] 
    sign = lambda v: (v > 0) - (v < 0)
    def c(a, b):
        return sign(compare_causes(a, b))
    for a, b in itertools.product(es, es):
        h.count((attrs(a), attrs(b)))
        if c(a, b) != -c(b, a):
            return "failures %r and %r: each comes after the other" % (attrs(a), attrs(b))
        if a.loc > b.loc and c(a, b) != -1:
            return "failure %r further than %r is not before it" % (attrs(a), attrs(b))
        for a2, b2 in itertools.product(es, es):
            if attrs(a) == attrs(a2) and attrs(b) == attrs(b2) and c(a, b) != c(a2, b2):
                return "the order of %r and %r depends on something else" % (attrs(a), attrs(b))
    for x, y, z in itertools.product(es, es, es):
        if c(x, y) <= 0 and c(y, z) <= 0 and c(x, z) > 0:
            return "the order of failures is not transitive: %r, %r, %r" % (attrs(x), attrs(y), attrs(z))
    # whatever the order they were collected in, the sorted kinds are the same
    want = None
    for p in (es, es[::-1], es[1:] + es[:1]):
        got = [(x.loc, bool(x.expr.parser_name), not x.expr.parser_name and bool(x._msg)) for x in sort_causes(p)]
        if want is not None and got != want:
            return "sorted order of %r depends on the order of collection: %r, %r" % ([attrs(x) for x in es], want, got)
        want = got


@case
def kept(h, roots, text):
    """a result keeps a failure that no other it was given lies further than"""
    es = [mk(r, text) for r in roots]
    h.count(tuple(e.loc for e in es) if len(es) > 1 else None)
    r = ParseResults(ENV["Empty"](), 0, 0, [], list(es))
    if es and not r.failures:
        return "a result given failures %r keeps none" % (roots,)
    if any(f not in es for f in r.failures):
        return "a result given failures %r keeps others" % (roots,)
    if es and max(e.loc for e in r.failures) != max(e.loc for e in es):
        return "a result keeps failures at %r of those at %r" % ([e.loc for e in r.failures], [e.loc for e in es])


@case
def collected(h, src, texts):
    """an attempt that fails, or a match that goes on, knows the furthest failure among the pieces it tried"""
    g = parser_of(src)
    if g is None:
        return
    e, parser, white = g
    Base = ENV["ParserElement"]
    real = Base.__dict__["_parse"]
    stack, found = [], []

    def spy(self, string, start, do_actions=True):
        stack.append([])
        try:
            got = real(self, string, start, do_actions)
        except ParseException as err:
            mine = stack.pop()
            if stack:
                stack[-1].append((self, err))
            judge(self, err, mine)
            raise
        except BaseException:
            stack.pop()
            raise
        mine = stack.pop()
        if stack:
            stack[-1].append((self, got))
        judge(self, got, mine)
        return got

    def judge(node, got, mine):
        ends = {id(t) for t in got.tokens} if not isinstance(got, ParseException) else ()
        far = [max(leaves(x)) for _, x in mine if isinstance(x, ParseException)]
        far += [max(leaves(f)) for _, x in mine if not isinstance(x, ParseException) and id(x) in ends for f in x.failures]
        if not far or isinstance(node, (ENV["NotAny"], ENV["SkipTo"])):
            return
        if isinstance(got, ParseException):
            known = [max(leaves(got))]
        else:
            known = [max(leaves(f)) for f in got.failures]
        h.count((src, type(node).__name__, bool(isinstance(got, ParseException))))
        if max(known, default=-1) < max(far):
            found.append((node, got, max(known, default=-1), max(far)))

    Base._parse = spy
    try:
        for t in texts:
            text_outcome(parser.parse, t)
            if found:
                node, got, k, f = found[0]
                return "%s on %r: %s of %s knows failures up to %r, one of its pieces failed at %d" % (
                    src, t, "the failure" if isinstance(got, ParseException) else "the match", node, k, f)
    finally:
        Base._parse = real


def rand_fail(rng, depth, n):
    causes = []
    if depth > 0 and rng.random() < 0.6:
        causes = [rand_fail(rng, depth - 1, n) for _ in range(rng.choice([1, 1, 2, 3]))]
    return [rng.randrange(n + 1), rng.choice(["", "", "num", "id"]), rng.choice(["", "", "oops"]), causes]


def main(h):
    rng = h.rng
    for _ in h.loop(700):
        src = expr(rng, rng.choice([1, 2, 2, 3]))
        if rng.random() < 0.3:
            src = "(%s).set_parser_name('thing')" % src
        ts = texts_for(rng, 8) + [rand_text(rng, "ab\n ", 9) for _ in range(6)]
        h.run(reported, src, ts)
    for _ in h.loop(120):
        # choices of literals, some with the same beginning, are looked up
        words = rng.sample(["ab", "abb", "b", "ba", "x", "y", "z", "w", "(", "1"], rng.randrange(3, 8))
        alts = ["Literal(%r)" % w + "".join(" + %r" % rng.choice("abc") for _ in range(rng.choice([0, 0, 1, 2]))) for w in words + [rng.choice(words)]]
        rng.shuffle(alts)
        src = rng.choice(["MatchFirst([%s]) + '!'", "Or([%s]) + '!'", "OneOrMore(MatchFirst([%s])) + '!'"]) % ", ".join(alts)
        h.run(collected, src, [rng.choice(words) + rand_text(rng, "abc !", 4) for _ in range(10)])
    for _ in h.loop(500):
        src = expr(rng, rng.choice([1, 2, 2, 3]))
        h.run(collected, src, texts_for(rng, 6) + [rand_text(rng, "ab(1 ", 7) for _ in range(6)])
    for _ in h.loop(900):
        t = rand_text(rng, "ab\n ", 8)
        h.run(tree, rand_fail(rng, 3, len(t)), t)
    for _ in h.loop(250):
        t = rand_text(rng, "ab\n", 4)
        h.run(ordering, [rand_fail(rng, rng.choice([0, 0, 1]), len(t)) for _ in range(rng.choice([2, 3, 4, 5]))], t)
    for _ in h.loop(150):
        t = rand_text(rng, "ab\n", 8)
        h.run(kept, [rand_fail(rng, rng.choice([0, 0, 1]), len(t)) for _ in range(rng.choice([0, 3, 30, 31, 32, 40]))], t)
