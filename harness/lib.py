"""
Replay harness: runs the real code of /repo (PYVC_REPO) next to an executable
reading of the contracts.  Bounded; never counted as proved.
Runs under the interpreter mo-parsing is installed for.
"""
import json, os, random, re, signal, sys, time

REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

import mo_parsing as mp                                   # noqa
from mo_parsing import whitespaces                         # noqa
from mo_parsing.exceptions import ParseException           # noqa
from mo_parsing.results import ParseResults, Annotation    # noqa
from mo_parsing.enhancement import Group                   # noqa

assert os.path.abspath(mp.__file__).startswith(os.path.abspath(REPO) + os.sep), mp.__file__

ENV = {}
exec("from mo_parsing import *", ENV)
import mo_parsing.enhancement as _en, mo_parsing.expressions as _ex, mo_parsing.tokens as _tk
for _m in (_en, _ex, _tk):
    for _k, _v in list(vars(_m).items()):
        if isinstance(_v, type) and _v.__module__.startswith("mo_parsing"):
            ENV.setdefault(_k, _v)
from mo_parsing.infix import delimited_list, one_of, infix_notation, LEFT_ASSOC, RIGHT_ASSOC
from mo_parsing.regex import Regex
ENV.update(
    delimited_list=delimited_list, one_of=one_of, infix_notation=infix_notation,
    LEFT_ASSOC=LEFT_ASSOC, RIGHT_ASSOC=RIGHT_ASSOC, Regex=Regex,
    ParseResults=ParseResults, ParseException=ParseException, whitespaces=whitespaces,
)
NO_WHITESPACE = whitespaces.NO_WHITESPACE
Whitespace = whitespaces.Whitespace


def inws(chars, make):
    """build an expression inside a whitespace context"""
    with Whitespace(chars):
        return make()


def ignoring(chars, mark, make):
    """build an expression where a text is ignored as well"""
    with Whitespace(chars) as w:
        w.add_ignore(ENV["Literal"](mark))
        return make()


def fwd(make):
    """recursive definition: make(f) is the definition of f"""
    f = ENV["Forward"]()
    f << make(f)
    return f


def veto(pred):
    """an action that may refuse a match"""
    def act(tokens, index, string):
        if not pred(string[tokens.start:tokens.end]):
            raise ParseException(tokens.type, index, string, msg="veto")
    return act


ENV.update(inws=inws, ignoring=ignoring, fwd=fwd, veto=veto)


def build(src):
    return eval(src, dict(ENV))


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("no answer within the time limit: a loop that does not end")


signal.signal(signal.SIGALRM, _alarm)


# ---------------------------------------------------------------- outcomes
def canon(r):
    """visible tokens, groups nested (the public iteration)"""
    out = []
    for t in r:
        if isinstance(t, ParseResults):
            out.append(("G", canon(t)))
        else:
            out.append(t)
    return out


def embed(r):
    """the visible items r contributes to a result that contains it"""
    if isinstance(r, Annotation):
        return []
    if isinstance(r.type, Group):
        return [("G", canon(r))]
    return canon(r)


class Ok(object):
    __slots__ = ["start", "end", "toks", "raw", "loose"]

    def __init__(self, start, end, toks, raw=None):
        self.start, self.end, self.toks, self.raw = start, end, toks, raw

    def key(self):
        return (self.start, self.end, repr(self.toks))

    def __repr__(self):
        return "match[%s:%s] tokens=%r" % (self.start, self.end, self.toks)


class Fail(object):
    def __init__(self, exc=None):
        self.exc = exc

    def key(self):
        return None

    def __repr__(self):
        return "no match"


class Other(object):
    def __init__(self, what):
        self.what = what

    def key(self):
        return "!" + self.what

    def __repr__(self):
        return self.what


def attempt(expr, text, pos, do_actions=True):
    try:
        r = expr._parse(text, pos, do_actions)
    except ParseException as e:
        return Fail(e)
    except Timeout:
        raise
    except RecursionError:
        return Other("RecursionError")
    except Exception as e:
        return Other("%s: %s" % (type(e).__name__, str(e).split("\n")[0][:100]))
    if not isinstance(r, ParseResults):
        return Other("returned " + type(r).__name__)
    return Ok(r.start, r.end, embed(r), r)


def same(a, b):
    return type(a) is type(b) and a.key() == b.key()


# ---------------------------------------------------------------- bookkeeping
CASES = {}


def case(fn):
    CASES[fn.__name__] = fn
    return fn


class H(object):
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.t0 = time.time()
        self.budget = budget
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.cases = 0
        self.rule = ""

    def left(self):
        return self.budget - (time.time() - self.t0)

    def more(self, share=1.0):
        """still time, and nothing found"""
        return (time.time() - self.t0) < self.budget * share and len(self.violations) < 3

    def loop(self, n):
        """n cases (more in the thorough tier), unless something was found or time ran out"""
        if self.tier == "thorough":
            n *= 8
        for i in range(n):
            if self.left() < 0 or len(self.violations) >= 3:
                return
            yield i

    def count(self, key):
        """one evaluation of the real code, `key` non-trivial outcome or None"""
        self.evaluations += 1
        if key is not None:
            self.distinct.add(hash(key))

    def run(self, fn, *args, limit=20):
        """run one case; a returned text or an exception is a violation"""
        self.cases += 1
        try:
            signal.alarm(limit)
            try:
                msg = fn(self, *args)
            finally:
                signal.alarm(0)
        except Timeout as e:
            msg = "HANG: " + str(e)
        except Exception as e:
            import traceback
            msg = "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        if len(self.samples) < 12 or self.rng.random() < 0.001:
            if len(self.samples) < 24:
                self.samples.append({"case": fn.__name__, "args": repr(args)[:400]})
        if msg:
            self.violations.append({"case": fn.__name__, "args": list(args), "message": msg})
        return msg


# ---------------------------------------------------------------- generators
def all_texts(alphabet, n):
    out = [""]
    last = [""]
    for _ in range(n):
        last = [t + c for t in last for c in alphabet]
        out += last
    return out


def rand_text(rng, alphabet, n):
    return "".join(rng.choice(alphabet) for _ in range(rng.randrange(n + 1)))


LEAVES = [
    'Literal("a")', 'Literal("b")', 'Literal("ab")', 'Literal("aa")', 'Literal("ba")',
    'CaselessLiteral("A")', 'CaselessLiteral("Ab")', 'Keyword("a")', 'Keyword("ab")', 'Keyword("b", caseless=True)',
    'Word("ab")', 'Word("a")', 'Word("a", "b")', 'Word("ab", min=2)', 'Word("ab", exact=1)', 'Word("b", max=2)',
    'Char("a")', 'Char("ab")', 'Char(exclude="a")', 'AnyChar()', 'CharsNotIn("a")', 'CharsNotIn("a ", max=2)',
    'Literal("a")("n")', 'Word("ab")("n")', 'Literal("(")', 'Literal("a").suppress()',
]
ZERO = [
    'Empty()', 'StringStart()', 'StringEnd()', 'LineStart()', 'LineEnd()', 'WordStart("ab")', 'WordEnd("ab")',
    'NoMatch()', 'PrecededBy("a")', 'PrecededBy(Word("ab"))', 'LookAhead("a")', '~Literal("a")', '~Char("ab")',
]
SLOW = ['Regex("a+b?")', 'Regex("[ab]")', 'Regex("a|ab")', 'CloseMatch("ab", 1)', 'White(" ")', 'Regex("(?P<x>a)b*")']


def leaf(rng, zero=0.15, slow=0.04):
    x = rng.random()
    if x < zero:
        return rng.choice(ZERO)
    if x < zero + slow:
        return rng.choice(SLOW)
    return rng.choice(LEAVES)


def expr(rng, depth, zero=0.12):
    """random expression, as source text"""
    if depth <= 0 or rng.random() < 0.15:
        return leaf(rng, zero)
    e = lambda: expr(rng, depth - 1, zero)
    k = rng.randrange(26)
    n = rng.choice([2, 2, 3])
    if k < 4:
        if rng.random() < 0.5:
            return "(" + " + ".join(e() for _ in range(n)) + ")"
        return "And([" + ", ".join(e() for _ in range(n)) + "])"
    if k < 8:
        if rng.random() < 0.5:
            return "(" + " | ".join(e() for _ in range(n)) + ")"
        return "MatchFirst([" + ", ".join(e() for _ in range(n)) + "])"
    if k < 10:
        if rng.random() < 0.5:
            return "(" + " ^ ".join(e() for _ in range(n)) + ")"
        return "Or([" + ", ".join(e() for _ in range(n)) + "])"
    if k == 10:
        # a nested match-all is merged with the outer one: keep them apart
        return "(" + " & ".join("Group(%s)" % x if " & " in x else x for x in (e(), e())) + ")"
    if k == 11:
        return "ZeroOrMore(%s)" % noback(e())
    if k == 12:
        return "OneOrMore(%s)" % noback(e())
    if k == 13:
        return "Optional(%s)" % noback(e())
    if k == 14:
        return "Optional(%s, default=%r)" % (noback(e()), rng.choice(["d", "", "zz"]))
    if k == 15:
        lo = rng.randrange(3)
        return "Many(%s, min_match=%d, max_match=%d)" % (noback(e()), lo, max(1, lo + rng.randrange(3)))
    if k == 16:
        return "(%s)[%d:%d]" % (noback(e()), rng.randrange(3), rng.randrange(2, 4))
    if k == 17:
        return "LookAhead(%s)" % e()
    if k == 18:
        return "~(%s)" % e()
    if k == 19:
        return "SkipTo(%s)" % e()
    if k == 20:
        return "Group(%s)" % e()
    if k == 21:
        return "(%s)(%r)" % (e(), rng.choice(["n", "m"]))
    if k == 22:
        return "(%s).suppress()" % e()
    if k == 23:
        return "Combine(%s)" % e()
    if k == 24:
        return "Forward(%s)" % e()
    return "inws(%r, lambda: %s)" % (rng.choice(["", " ", "b"]), e())


def noback(src):
    """a look-behind can not be repeated"""
    return src if not src.startswith("PrecededBy") else "Empty()"


def try_build(src):
    """None if the grammar is refused at definition"""
    try:
        signal.alarm(10)
        return build(src)
    except Timeout:
        raise
    except Exception:
        return None
    finally:
        signal.alarm(0)


AB = "ab "
TEXTS3 = all_texts(AB, 3)
TEXTS4 = all_texts(AB, 4)


def texts_for(rng, n, alphabet="ab A(\n1", base=None):
    out = rng.sample(base or TEXTS4, min(n, len(base or TEXTS4)))
    out += [rand_text(rng, alphabet, 8) for _ in range(max(2, n // 3))]
    return out


def plain_texts(srcs, es):
    """operands as they may be written: the first or the second a plain text, where it is one"""
    out = list(es)
    i = 0 if len(srcs[0]) % 2 else 1
    for k in ((i, 1 - i) if len(srcs) > 1 else ()):
        m = re.match(r"Literal\((['\"][^'\"\\]+['\"])\)$", srcs[k])
        if m:
            out[k] = eval(m.group(1))
            break
    return out
