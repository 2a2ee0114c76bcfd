from lib import *
from c15 import nested, flat, items_of, body
from c16 import look, value_key

RULE = ("random grammars (with actions, conditions, names, groups), bare and wrapped in Group, Combine, Suppress, Dict, OpenDict, "
        "on random texts at every position; dictionaries with random keys; non-trivial: a match, keyed by wrapper, "
        "grammar, text, position")


def acted(rng, depth):
    src = expr(rng, depth)
    x = rng.random()
    if x < 0.12:
        return "(%s).add_parse_action(lambda t: ['v', 'w'])" % src
    if x < 0.2:
        return "(%s).add_parse_action(lambda t: [x.upper() for x in t if isinstance(x, str)])" % src
    if x < 0.28:
        return "(%s).add_parse_action(lambda t: 42)" % src
    if x < 0.4:
        return "(%s).add_parse_action(veto(lambda s: len(s) %% 2 == 0))" % src
    return src


def pieces(x):
    return "".join(pieces(y[1]) if isinstance(y, tuple) else pieces(y) if isinstance(y, list) else str(y) for y in x)


def plain(toks):
    """tokens as nested lists"""
    return [plain(x[1]) if isinstance(x, tuple) else x for x in toks]


@case
def wrappers(h, src, texts):
    if try_build(src) is None:
        return
    E = ENV
    made = []
    for streamlined in (False, True):
        for name, make, want in [
            ("Group", lambda e: E["Group"](e), lambda t: [("G", t)]),
            ("Combine", lambda e: E["Combine"](e), lambda t: [pieces(t)]),
            ("Combine with -", lambda e: E["Combine"](e, "-"), None),
            ("Suppress", lambda e: E["Suppress"](e), lambda t: []),
            (".suppress()", lambda e: e.suppress(), lambda t: []),
            ("Group in Group", lambda e: E["Group"](E["Group"](e)), lambda t: [("G", [("G", t)])]),
            ("Suppress in Group", lambda e: E["Group"](E["Suppress"](e)), lambda t: [("G", [])]),
            ("named Group", lambda e: E["Group"](E["Group"](e)("k")), lambda t: [("G", [("G", t)])]),
        ]:
            try:
                x = make(build(src))
                if streamlined:
                    x = x.streamline()
            except Timeout:
                raise
            except Exception as ex:
                if type(ex).__name__ in ("ParseException",) or "must be" in str(ex):
                    continue
                raise
            made.append((name + (" (streamlined)" if streamlined else ""), x, want))
    e = build(src)
    for t in texts:
        for p in range(len(t) + 1):
            o = attempt(e, t, p)
            for who, x, want in made:
                h.count((who, src, t, p) if isinstance(o, Ok) else None)
                g = attempt(x, t, p)
                where = "%s of %s at %d of %r" % (who, src, p, t)
                if type(g) is not type(o):
                    return "%s: %r, without it: %r" % (where, g, o)
                if not isinstance(o, Ok):
                    continue
                if g.end != o.end:
                    return "%s: ends at %d, without it at %d" % (where, g.end, o.end)
                if g.start != o.start and not (g.start == p and t[p:o.start].strip() == "" or o.start == p and o.start == o.end):
                    return "%s: starts at %d, without it at %d" % (where, g.start, o.start)
                if want is not None and g.toks != want(o.toks):
                    return "%s: tokens %r, without it %r" % (where, g.toks, o.toks)
                if who.startswith("Combine with -"):
                    parts = [str(y) for y in flat(o.raw)]
                    if g.toks != ["-".join(parts)]:
                        return "%s: token %r, expected %r" % (where, g.toks, "-".join(parts))
                if who == "named Group" and plain(o.toks) != nested(g.raw["k"]) and o.toks:
                    return "%s: the name holds %r" % (where, nested(g.raw["k"]))


READ = {"text": None, "number": int, "even": lambda s: int(s) % 2 == 0, "real": lambda s: int(s) / 2, "short": lambda s: s.lstrip("0")}


@case
def dictionaries(h, rows, opened, kind):
    """rows: [key, [values]]; kind: what an action makes of the digits of a value"""
    read = READ[kind]
    E = ENV
    with Whitespace():
        value = E["Word"]("0123456789")
        if read is not None:
            value = value / (lambda t: read(t[0]))
        row = E["Group"](E["Word"]("kxyz_") + E["Suppress"](":") + E["ZeroOrMore"](value))
    inner = E["ZeroOrMore"](row)
    e = (E["OpenDict"] if opened else E["Dict"])(inner)
    bare = inner if opened else E["Group"](inner)
    text = " ".join("%s: %s" % (k, " ".join(vs)) for k, vs in rows)
    a, b = attempt(bare, text, 0), attempt(e, text, 0)
    h.count((repr(rows), opened, kind))
    if read is not None:
        rows = [[k, [read(v) for v in vs]] for k, vs in rows]
    where = "%s on %r" % ("OpenDict" if opened else "Dict", text)
    if not same(a, b):
        return "%s: %r, expected %r" % (where, b, a)
    got = b.raw
    keys = [k for k, _ in rows]
    if set(got.keys()) != set(keys):
        return "%s: names %r, expected %r" % (where, list(got.keys()), keys)
    for k in set(keys):
        want = [v for kk, vs in rows if kk == k for v in vs]
        x = got[k]
        have = flat(x) if isinstance(x, ParseResults) else ([x] if x is not None else [])
        if any(type(v) is not type(w) for v, w in zip(have, want)) and keys.count(k) == 1:
            return "%s: [%r] holds %r, expected %r" % (where, k, have, want)
        if keys.count(k) == 1 and have != want:
            return "%s: [%r] holds %r, expected %r" % (where, k, have, want)
        if keys.count(k) > 1 and not all(v in have for v in want):
            return "%s: [%r] holds %r, expected all of %r" % (where, k, have, want)


@case
def blank_entries(h, opened, texts):
    """an entry that shows nothing names nothing"""
    E = ENV
    kinds = [lambda: E["Group"](E["Optional"](E["Literal"]("x")("n"))), lambda: E["Group"](E["Suppress"](E["Literal"]("x")("n"))),
             lambda: E["Group"](E["ZeroOrMore"](E["Word"]("ab")("m"))), lambda: E["Group"](E["Optional"](E["Literal"]("x").suppress()("n")) + E["ZeroOrMore"]("a"))]
    for j, kind in enumerate(kinds):
        e = (E["OpenDict"] if opened else E["Dict"])(kind() | E["Literal"]("!"))
        bare = kind() | E["Literal"]("!")
        bare = bare if opened else E["Group"](bare)
        for t in texts:
            a, b = attempt(bare, t, 0), attempt(e, t, 0)
            h.count((j, opened, t))
            if not same(a, b):
                return "%s of entry %d on %r: %r, expected %r" % ("OpenDict" if opened else "Dict", j, t, b, a)


def main(h):
    for opened in (False, True):
        h.run(blank_entries, opened, ["", "x", "a", "ab b", "xa a", "!", "x x", "?"])
    rng = h.rng
    for _ in h.loop(600):
        h.run(wrappers, acted(rng, rng.choice([0, 0, 1, 1, 2])), texts_for(rng, 5))
    for _ in h.loop(200):
        kind = rng.choice(["text", "text", "number", "even", "real", "short"])
        rows = [["".join(rng.choice("kxyz_") for _ in range(rng.choice([1, 2, 3]))), [str(rng.choice([0, rng.randrange(100)])) for _ in range(rng.randrange(1, 4))]] for _ in range(rng.randrange(6))]
        h.run(dictionaries, rows, rng.random() < 0.5, kind)
