from lib import *
import mo_parsing.whitespaces as W
from mo_parsing.tokens import Literal, Keyword, CaselessLiteral

RULE = ("random programs of nested whitespace contexts (entering new, current, shared and no-whitespace definitions, changing "
        "them, building expressions, leaving normally or by exceptions) against a stack of definitions; non-trivial: a "
        "program step at depth >= 1, keyed by program and step")
KW = W.CURRENT.keyword_chars
KWS = [KW, "a", "b", "ab", "_", KW + "#"]
CHARS = ["", " ", " \n", "b", " b", "\t"]


class Def(object):
    def __init__(self, chars, literal="Literal", ignore=(), kw=None):
        self.chars, self.literal, self.ignore, self.kw = "".join(sorted(set(chars))), literal, tuple(ignore), frozenset(kw or KW)

    def copy(self):
        return Def(self.chars, self.literal, self.ignore, self.kw)


class Stop(Exception):
    pass


TYPES = {"Literal": Literal, "Keyword": Keyword, "CaselessLiteral": CaselessLiteral}


def skipped(d, t, p):
    while p < len(t) and (t[p] in d.chars or t[p] in d.ignore):
        p += 1
    return p


class Program(object):
    def __init__(self, h, steps):
        self.h, self.steps, self.i = h, steps, 0
        self.built = []          # (expression, its definition, how)
        self.shared = []         # (Whitespace, Def)
        self.msg = None
        self.known = []          # every definition ever seen, with what it should be
        self.done = []

    def where(self):
        return "after %s" % self.done

    def check(self, d, cur=None):
        c = W.CURRENT
        if cur is not None and c is not cur:
            self.msg = "%s: the current definition is not the one entered" % self.where()
            return False
        if set(c.keyword_chars) != d.kw:
            self.msg = "%s: the current definition has keyword characters %r, expected %r" % (self.where(), c.keyword_chars, "".join(sorted(d.kw)))
            return False
        if c.white_chars != d.chars or len(c.ignore_list) != len(d.ignore) or c.literal is not TYPES[d.literal]:
            self.msg = "%s: the current definition has characters %r, %d ignored, literals %s; expected %r, %d, %s" % (
                self.where(), c.white_chars, len(c.ignore_list), c.literal.__name__, d.chars, len(d.ignore), d.literal)
            return False
        for w, e in self.known:
            if w.white_chars != e.chars or len(w.ignore_list) != len(e.ignore) or w.literal is not TYPES[e.literal] or set(w.keyword_chars) != e.kw:
                self.msg = "%s: a definition changed from (%r, %d) to (%r, %d)" % (self.where(), e.chars, len(e.ignore), w.white_chars, len(w.ignore_list))
                return False
        for e, dd, how in self.built:
            for t in ("a b", "ab", "a\nb", "a#b", "a \n#b", "a#%b", "a%b", "abb", "a\tb"):
                q = skipped(dd, t, 1)
                want = q < len(t) and t[q] == "b"
                got = attempt(e, t, 0)
                if how == "many":
                    want = t.startswith("a")
                    end = 1
                if isinstance(got, Ok) != want or (want and how == "and" and got.end != q + 1):
                    self.msg = "%s: an expression built in (%r, %r) gives %r on %r" % (self.where(), dd.chars, dd.ignore, got, t)
                    return False
        return True

    def block(self, d, cur):
        """run steps until a leave; -> True when left by an exception"""
        while self.i < len(self.steps) and not self.msg:
            step = self.steps[self.i]
            self.i += 1
            self.done.append(step)
            k = step[0]
            self.h.count((repr(self.steps[:self.i])) if cur is not self.base else None)
            if k == "leave":
                return
            if k == "raise":
                raise Stop()
            if k == "set":
                W.CURRENT.set_whitespace(step[1]) if cur is not self.base else None
                if cur is not self.base:
                    d.chars = "".join(sorted(set(step[1])))
            elif k == "ignore" and cur is not self.base and "#%"[step[1] % 2] not in d.ignore:
                W.CURRENT.add_ignore(Literal("#%"[step[1] % 2]))
                d.ignore = d.ignore + ("#%"[step[1] % 2],)
            elif k == "literal" and cur is not self.base:
                W.CURRENT.set_literal(TYPES[step[1]])
                d.literal = step[1]
            elif k == "keywords" and cur is not self.base:
                W.CURRENT.set_keyword_chars(step[1])
                d.kw = frozenset(step[1])
            elif k == "build":
                x = self.h.rng.random
                a = ENV["Char"]("a")
                e = [lambda: a + ENV["Char"]("b"), lambda: ENV["And"]([ENV["Char"]("a"), ENV["Char"]("b")]),
                     lambda: ENV["Forward"](a + ENV["Char"]("b")),
                     lambda: ENV["Many"](ENV["Char"]("ab"), min_match=2, max_match=2).add_condition(lambda t: list(t) == ["a", "b"])][step[1]]()
                self.built.append((e, d, "and"))   # follows its own context
                for t in ("a", "aa", "ab", "a#", "a_", "a b"):
                    got = attempt(Keyword("a"), t, 0)
                    if isinstance(got, Ok) != (t[1:2] not in d.kw if t[1:] else True):
                        self.msg = "%s: Keyword('a') on %r with keyword characters %r: %r" % (self.where(), t, "".join(sorted(d.kw)), got)
                        return
                lit = ENV["Char"]("x") + "yy"
                if type(lit.exprs[-1]) is not TYPES[d.literal]:
                    self.msg = "%s: a text became %s, expected %s" % (self.where(), type(lit.exprs[-1]).__name__, d.literal)
                    return
            elif k in ("enter", "enter_shared", "enter_current", "enter_none", "use"):
                if k == "enter_none":
                    w, nd = W.NO_WHITESPACE, Def("")
                elif k == "enter_current":
                    w, nd = W.CURRENT, d.copy()
                elif k == "enter_shared" and self.shared:
                    w, nd = self.shared[step[1] % len(self.shared)]
                    nd = nd.copy()
                else:
                    w, nd = Whitespace(CHARS[step[1] % len(CHARS)]), Def(CHARS[step[1] % len(CHARS)])
                    self.shared.append((w, nd.copy()))
                    self.known.append((w, nd.copy()))
                before = W.CURRENT
                try:
                    if k == "use":
                        inside = w.use()
                        try:
                            if inside is not W.CURRENT:
                                self.msg = "%s: use() gives another definition" % self.where()
                            self.block(nd, inside)
                        finally:
                            (inside if step[1] % 2 else w).release()
                    else:
                        with w as inside:
                            if inside is not W.CURRENT:
                                self.msg = "%s: the context is not current" % self.where()
                            self.block(nd, inside)
                except Stop:
                    self.done.append("caught")
                if W.CURRENT is not before and not self.msg:
                    self.msg = "%s: leaving the context does not restore the definition before it" % self.where()
            if self.msg or not self.check(d, cur):
                return


@case
def program(h, steps):
    p = Program(h, steps)
    base = W.CURRENT
    p.base = base
    d = Def(base.white_chars, base.literal.__name__)
    stack = len(W.whitespace_stack)
    try:
        p.block(d, base)
    except Stop:
        pass
    if not p.msg and (W.CURRENT is not base or len(W.whitespace_stack) != stack):
        p.msg = "%s: at the end the definition is not the one of the beginning" % p.where()
    if p.msg:
        # do not let one failure spoil the next program
        W.CURRENT = base
        del W.whitespace_stack[stack:]
    return p.msg


@case
def own_context(h, outer, own, chars, texts):
    """a repetition given its own definition takes that one for its stop and for the whitespace between"""
    w = Whitespace(chars)
    w.set_literal(TYPES[own])
    with Whitespace() as cur:
        cur.set_literal(TYPES[outer])
        es = [ENV[k](ENV["Char"]("abAB1"), whitespace=w, stop_on="ab", **kw) for k, kw in (("OneOrMore", {}), ("ZeroOrMore", {}), ("Many", {"min_match": 1}))]
        es += [ENV[k](ENV["Char"]("abAB1"), whitespace=w, **kw).stop_on("ab") for k, kw in (("OneOrMore", {}), ("Many", {"min_match": 1}))]
        stop = {"Literal": lambda t, p: t.startswith("ab", p), "CaselessLiteral": lambda t, p: t[p:p + 2].lower() == "ab",
                "Keyword": lambda t, p: t.startswith("ab", p) and (t[p + 2:p + 3] or " ") not in KW}[own]
        for i, e in enumerate(es):
            for t in texts:
                got = attempt(e, t, 0)
                p, n, end = 0, 0, 0
                while True:
                    if n:
                        while p < len(t) and t[p] in chars:
                            p += 1
                    if p >= len(t) or stop(t, p) or t[p] not in "abAB1":
                        break
                    p += 1
                    n, end = n + 1, p
                want = n >= (0 if i == 1 else 1)
                h.count((i, outer, own, chars, t) if n > 1 else None)
                if isinstance(got, Ok) != want or want and got.end != end:
                    return "%s stopping at 'ab' (%s in %r) made where texts are %s, on %r: %r, expected %s" % (e.__class__.__name__, own, chars, outer, t, got, end if want else "no match")


def main(h):
    for outer in sorted(TYPES):
        for own in sorted(TYPES):
            for c in ("", " ", "1"):
                h.run(own_context, outer, own, c, ["", "ab", "aab", "a ab", "a AB", "aAb", "a1ab1", "a1 ab ", "bb ab", "b AB", "b1a", "1 1ab", "aaab b", "b\nab"])
    rng = h.rng
    for _ in h.loop(1500):
        steps = []
        for _ in range(rng.randrange(3, 16)):
            k = rng.choice(["enter", "enter", "enter_shared", "enter_current", "enter_none", "use", "set", "ignore", "ignore", "literal", "keywords", "build", "build", "leave", "leave", "raise"])
            if k == "set":
                steps.append([k, rng.choice(CHARS)])
            elif k == "literal":
                steps.append([k, rng.choice(sorted(TYPES))])
            elif k == "keywords":
                steps.append([k, rng.choice(KWS)])
            elif k == "build":
                steps.append([k, rng.randrange(4)])
            else:
                steps.append([k, rng.randrange(8)])
        h.run(program, steps)
