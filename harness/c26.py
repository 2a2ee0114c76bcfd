from lib import *
import re
from mo_parsing.results import Annotation

RULE = ("random patterns (classes, escapes, quantifiers, groups, look-around, flags) x random texts at every position against the "
        "re module (dot matches line breaks), capture groups with their spans, and the same Regex as an "
        "alternative of a choice; non-trivial: a match, keyed by pattern, text, position")
FLAGS = re.DOTALL
ATOMS = ["a", "b", "a", "b", "1", " ", "é", ".", "\\d", "\\w", "\\s", "\\S", "\\D", "\\W", "[ab]", "[^a]", "[a-c1]", "[^\\d]", "\\.", "\\(", "\\t",
         "\\n", "\\\\", "[\\]a]", "[-a]", "ab", "ba", "-", "_", "\\x61", "[\\w-]", "[\\s,]", ",", "#", "\n", "[^\\n]", "\\+", "A", "!"]
EDGES = ["^", "$", "\\b", "\\B", "\\A", "\\Z"]
QUANT = ["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{0,1}", "{,2}", "{1,}"]
SURE = ["a+b?", "[ab]*", "(a)(b)?", "(?P<x>a)b*", "a|ab", "(?:a|b)+", "\\d+", "[^\\n]*", "a{2}", "a{1,2}b", "(?=a)a", "(?!a)b", "(?<=a)b", "a b|c",
        "\\w+\\s", "(a(b))+", "((a)|(b))", "((a)(b))", "((a)b(?P<y>a)?)(b)?", "[a-z]+", "\\.", "(?P<n>(a|b)*)c?", "a$", "[\\w]", "a.b", "é+"]


def pattern(rng, depth, names):
    def atom(d):
        x = rng.random()
        if d > 0 and x < 0.2:
            body = alt(d - 1)
            k = rng.randrange(8)
            if k < 3:
                return "(%s)" % body
            if k < 5:
                names[0] += 1
                return "(?P<n%d>%s)" % (names[0], body)
            if k == 5:
                return "(?:%s)" % body
            return rng.choice(["(?=%s)", "(?!%s)"]) % body
        if x < 0.25:
            return rng.choice(EDGES)
        if x < 0.28:
            return rng.choice(["(?<=a)", "(?<=[ab])", "(?<=ab)"])
        return rng.choice(ATOMS)
    def seq(d):
        out = ""
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            a = atom(d)
            if a not in EDGES and not a.startswith(("(?=", "(?!", "(?<")) and rng.random() < 0.3:
                if len(a) > 1 and a[0] not in "\\[(":
                    a = a[-1]
                a += rng.choice(QUANT)
            out += a
        return out
    def alt(d):
        return "|".join(seq(d) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    return alt(depth)


def walk(r):
    for t in r.tokens:
        if isinstance(t, ParseResults):
            yield t
            for x in walk(t):
                yield x


def make(p):
    """None: not a pattern for either"""
    try:
        r = re.compile(p, FLAGS)
    except re.error:
        return None, None
    try:
        return r, Regex(p)
    except Timeout:
        raise
    except Exception:
        if p in SURE:
            raise
        return None, None


def compare(h, p, r, e, t, i):
    m = r.match(t, i)
    got = attempt(e, t, i)
    h.count((p, t, i) if m else None)
    if m is None:
        return None if isinstance(got, Fail) else "Regex(%r) at %d of %r: %r, the engine does not match" % (p, i, t, got)
    if not isinstance(got, Ok) or got.start != i or got.end != m.end() or got.toks != [m.group()]:
        return "Regex(%r) at %d of %r: %r, the engine gives [%d:%d] %r" % (p, i, t, got, i, m.end(), m.group())


@case
def patterns(h, p, texts):
    r, e = make(p)
    if r is None:
        return
    s = e.streamline()
    n = e("name")
    for t in texts:
        for i in range(len(t) + 1):
            msg = compare(h, p, r, e, t, i) or compare(h, p, r, s, t, i) or compare(h, p, r, n, t, i)
            if msg:
                return msg


@case
def groups(h, p, texts):
    r, e = make(p)
    if r is None or not r.groups:
        return
    e = e.capture_groups()
    for t in texts:
        for i in range(len(t) + 1):
            m = r.match(t, i)
            got = attempt(e, t, i)
            h.count((p, t, i, "groups") if m else None)
            where = "Regex(%r).capture_groups() at %d of %r" % (p, i, t)
            if m is None:
                if not isinstance(got, Fail):
                    return "%s: %r, the engine does not match" % (where, got)
                continue
            if not isinstance(got, Ok) or (got.start, got.end) != (i, m.end()):
                return "%s: %r, the engine gives [%d:%d]" % (where, got, i, m.end())
            want = {}
            for k in range(1, r.groups + 1):
                if m.start(k) >= 0:
                    want[str(k)] = (m.start(k), m.end(k), m.group(k))
            for name, k in r.groupindex.items():
                if m.start(k) >= 0:
                    want[name] = (m.start(k), m.end(k), m.group(k))
            found = {}
            for a in walk(got.raw):
                if isinstance(a, Annotation):
                    found[a.name] = (a.start, a.end, "".join(a.tokens))
            shown, last = [], i
            for k in range(1, r.groups + 1):
                if m.start(k) >= 0:
                    if m.start(k) >= last:
                        shown.append(m.group(k))
                    last = max(last, m.end(k))
            plain = [x for x in got.raw.tokens if isinstance(x, str)] if not got.raw.tokens or not isinstance(got.raw.tokens[0], ParseResults) or isinstance(got.raw.tokens[0], Annotation) else [x for x in got.raw.tokens[0].tokens if isinstance(x, str)]
            if plain != shown:
                return "%s: tokens %r, the groups outside of others are %r" % (where, plain, shown)
            if found != want:
                return "%s: groups %r, the engine gives %r" % (where, found, want)
            for name, (_, _, v) in want.items():
                x = got.raw[name]
                if v and not (x == v):
                    return "%s: [%r] is %r, the engine gives %r" % (where, name, x, v)


@case
def substitution(h, p, repl, texts):
    """the replacement, expanded with the groups of the match"""
    r, e = make(p)
    if r is None:
        return
    e = Regex(p).sub(repl)
    f = Regex(p).sub(lambda m: "<%s|%d>" % (m.group(), m.end() - m.start()))
    for t in texts:
        for i in range(len(t) + 1):
            m = r.match(t, i)
            h.count((p, t, i, "sub") if m else None)
            for ee, want in ((e, m and m.expand(repl)), (f, m and "<%s|%d>" % (m.group(), m.end() - m.start()))):
                got = attempt(ee, t, i)
                where = "Regex(%r).sub(%r) at %d of %r" % (p, repl if ee is e else "function", i, t)
                if m is None:
                    if not isinstance(got, Fail):
                        return "%s: %r, the engine does not match" % (where, got)
                elif not isinstance(got, Ok) or (got.start, got.end) != (i, m.end()) or got.toks != [want]:
                    return "%s: %r, the engine gives [%d:%d] %r" % (where, got, i, m.end(), want)


@case
def choices(h, ps, texts):
    """an ordered choice of regular expressions and literals takes the first that matches"""
    items = []
    for p in ps:
        r, e = make(p)
        if r is None:
            return
        items.append((r, e))
    a = ENV["MatchFirst"]([e for r, e in items])
    b = ENV["MatchFirst"]([e for r, e in items]).streamline()
    for t in texts:
        for i in range(len(t) + 1):
            want = next((m for m in (r.match(t, i) for r, e in items) if m), None)
            h.count((repr(ps), t, i) if want else None)
            for who, c in (("", a), (" (streamlined)", b)):
                got = attempt(c, t, i)
                if want is None and isinstance(got, Fail):
                    continue
                if want is None or not isinstance(got, Ok) or got.end != want.end() or got.toks != [want.group()]:
                    return "the first of the regular expressions %r%s at %d of %r: %r, expected %r" % (ps, who, i, t, got, want)


def main(h):
    rng = h.rng
    def texts(n):
        return ["".join(rng.choice(["a", "b", "ab", "1", " ", "\n", "c", "é", "A", "-", ".", ",", "_", "\\", "\t", "#"]) for _ in range(rng.randrange(7))) for _ in range(n)]
    def replacement(p):
        try:
            r = re.compile(p, FLAGS)
        except re.error:
            return "x"
        refs = ["\\g<0>", "\\\\", "\\n"] + ["\\%d" % i for i in range(1, r.groups + 1)] + ["\\g<%s>" % n for n in r.groupindex] * 2
        return "".join(rng.choice([rng.choice(refs), "x", "<", ">", "", " "]) for _ in range(rng.randrange(6)))
    for p in SURE:
        h.run(patterns, p, ["", "a", "ab", "aab", "b a", "abab c", "12 a.b", "c\na\n"] + texts(8))
        h.run(groups, p, ["", "a", "ab", "aab", "b a", "abab c", "12 a.b", "c\na\n", "abab"])
    for _ in h.loop(1500):
        p = pattern(rng, rng.choice([0, 1, 1, 2]), [0])
        h.run(patterns, p, texts(6))
    for _ in h.loop(700):
        p = pattern(rng, rng.choice([1, 1, 2]), [0])
        if "(" in p:
            h.run(groups, p, texts(6))
        if rng.random() < 0.4:
            h.run(substitution, p, replacement(p), texts(6))
    for _ in h.loop(800):
        h.run(choices, [pattern(rng, rng.choice([0, 1]), [0]) for _ in range(rng.choice([2, 3, 4]))], texts(5))
