from lib import *
import io, contextlib
import mo_parsing.debug as dbg
from mo_parsing.core import ParserElement
from c15 import nested

RULE = ("random grammars with actions, conditions, fail actions on random texts at every position, by element and by parser, "
        "without and with debugging (silent or not, nested, after failures and exceptions); non-trivial: a match or a failure "
        "of a grammar with an action, keyed by grammar, text, position")
Debugger = dbg.Debugger


def acted(rng, depth):
    src = expr(rng, depth)
    x = rng.random()
    if x < 0.15:
        return "(%s).add_parse_action(lambda t: ['v', 'w'])" % src
    if x < 0.3:
        return "(%s).add_parse_action(veto(lambda s: len(s) %% 2 == 0))" % src
    if x < 0.38:
        return "(%s).add_parse_action(lambda t, i, s: [str(i)])" % src
    if x < 0.45:
        return "(%s).add_parse_action(lambda t: 1 // (len(t) - 1))" % src
    if x < 0.52:
        return "(%s).add_condition(lambda t: len(t) > 1)" % src
    if x < 0.56:
        return "LookAhead((%s).add_parse_action(lambda t: log.append(t.end), callDuringTry=True)) + (%s)" % (src, src)
    if x < 0.63:
        return "LookAhead((%s).add_parse_action(lambda t: log.append(t.end))) + (%s)" % (src, src)
    return src


def outcome(e, text, pos, how, log, parser=None):
    del log[:]
    try:
        if how == "element":
            r = e._parse(text, pos)
        elif how == "no actions":
            r = e._parse(text, pos, False)
        elif how == "parser":
            r = parser.parse(text)
        elif how == "all":
            r = parser.parse(text, parse_all=True)
        elif how == "scan":
            return ("scan", [(nested(t), s, x) for t, s, x in parser.scan_string(text)], log[:])
    except Timeout:
        raise
    except ParseException as x:
        return ("fail", x.loc, x.message if hasattr(x, "message") else "", type(x).__name__, log[:])
    except Exception as x:
        return ("error", type(x).__name__, str(x)[:60].split("\n")[0], log[:])
    return ("ok", r.start, r.end, nested(r), sorted(map(str, r.keys())), log[:])


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


@case
def outcomes(h, src, texts):
    log = []
    try:
        e = eval(src, dict(ENV, log=log))
    except Timeout:
        raise
    except Exception:
        return
    try:
        parser = e.finalize()
    except Exception:
        return
    normal, none = ParserElement.__dict__["_parse"], dbg.DEBUGGER
    if none is not None:
        return "debugging is on before the case"
    for t in texts:
        for p in list(range(len(t) + 1)) + ["parser", "all", "scan"]:
            hows = [p] if isinstance(p, str) else ["element", "no actions"]
            for how in hows:
                pos = p if isinstance(p, int) else 0
                want = outcome(e, t, pos, how, log, parser)
                h.count((src, t, p, how))
                for silent in (True, False):
                    def run():
                        with Debugger(silent=silent):
                            return outcome(e, t, pos, how, log, parser)
                    def run2():
                        with Debugger(silent=silent):
                            with Debugger(silent=True):
                                outcome(e, t, pos, how, log, parser)
                            return outcome(e, t, pos, how, log, parser)
                    for who, r in (("", run), (" within another, closed", run2)):
                        got = quiet(r)
                        if got != want:
                            return "%s on %r (%s at %d), debugging%s%s: %r, without: %r" % (src, t, how, pos, " silently" if silent else "", who, got, want)
                        if ParserElement.__dict__["_parse"] is not normal or dbg.DEBUGGER is not none:
                            return "%s on %r: leaving the debugger does not restore parsing" % (src, t)
                again = outcome(e, t, pos, how, log, parser)
                if again != want:
                    return "%s on %r (%s at %d): after debugging %r, before: %r" % (src, t, how, pos, again, want)


@case
def nesting(h, plan):
    """plan: a sequence of opens (silent or not) and closes, with parses and exceptions in between"""
    E = ENV
    e = (E["Word"]("ab") + E["Literal"]("c")).add_parse_action(lambda t: [len(t)])
    normal = ParserElement.__dict__["_parse"]
    stack = []
    out = []
    def body(plan):
        while plan:
            op = plan.pop(0)
            if op in ("open", "again"):
                before = (ParserElement.__dict__["_parse"], dbg.DEBUGGER)
                try:
                    with (dbg.DEBUGGER if op == "again" and dbg.DEBUGGER else Debugger(silent=True)) as d:
                        if dbg.DEBUGGER is not d:
                            out.append("the debugger is not the current one inside")
                        n = d.parse_count
                        ok = attempt(e, "ab c", 0)
                        if not isinstance(ok, Ok) or ok.toks != [2]:
                            out.append("inside: %r" % ok)
                        if d.parse_count <= n:
                            out.append("attempts are not counted by the innermost debugger")
                        body(plan)
                except KeyError:
                    pass
                if (ParserElement.__dict__["_parse"], dbg.DEBUGGER) != before:
                    out.append("not restored after leaving")
            elif op == "close":
                return
            elif op == "fail":
                if not isinstance(attempt(e, "ab", 0), Fail):
                    out.append("no failure")
            elif op == "raise":
                raise KeyError("x")
            h.count((repr(plan), op))
    try:
        body(list(plan))
    except KeyError:
        pass
    if ParserElement.__dict__["_parse"] is not normal or dbg.DEBUGGER is not None:
        ParserElement._parse = normal
        dbg.DEBUGGER = None
        out.append("normal parsing is not restored at the end")
    ok = attempt(e, "ab c", 0)
    if not isinstance(ok, Ok) or ok.toks != [2]:
        out.append("after: %r" % ok)
    if out:
        return "debuggers %s: %s" % (plan, out[0])


def main(h):
    rng = h.rng
    for _ in h.loop(160):
        h.run(outcomes, acted(rng, rng.choice([0, 1, 1, 2])), texts_for(rng, 3))
    for _ in h.loop(300):
        h.run(nesting, [rng.choice(["open", "again", "open", "close", "fail", "raise"]) for _ in range(rng.randrange(9))])
