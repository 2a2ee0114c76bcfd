from lib import *
import re

RULE = ("whitespace definitions (characters x ignored expressions, also changed midway) x interleaved texts (equal texts that "
        "are different objects, and parses in between) x all positions, skip against stepping character by character; "
        "non-trivial: a skip that moved, keyed by definition, text, position")

IGNORES = {
    'Literal("#")': "#", 'Regex("#[^\\n]*")': "#[^\n]*", 'Literal("//")': "//", 'Word("xy")': "[xy]+",
    'Literal("b").suppress()': "b", 'Char("#!")': "[#!]", 'Regex("<[^>]*>")': "<[^>]*>", 'CaselessLiteral("x")': "[xX]",
    'Regex("#a|#")': "#a|#", 'Literal("#") | Literal("!")': "#|!",
}


def ref(chars, ignores, t, pos):
    rx = [re.compile(IGNORES[i], re.DOTALL) for i in ignores]
    while True:
        p = pos
        while pos < len(t) and t[pos] in chars:
            pos += 1
        for r in rx:
            m = r.match(t, pos)
            if m and m.end() > pos:
                pos = m.end()
                break
        if pos == p:
            return pos


def verify(h, ws, chars, ignores, t, p, where):
    want = ref(chars, ignores, t, p)
    got = ws.skip(t, p)
    h.count((chars, tuple(ignores), t, p) if want > p else None)
    if got != want:
        return "%s: skip from %d of %r ends at %r, expected %d" % (where, p, t, got, want)
    if not p <= got <= len(t):
        return "%s: skip from %d of %r ends at %r, outside" % (where, p, t, got)
    if ws.skip(t, got) != got:
        return "%s: skip again from %d of %r moves to %r" % (where, got, t, ws.skip(t, got))


@case
def skipping(h, chars, ignores, texts, order):
    """order: list of [what, text index, position]"""
    with Whitespace(chars) as ws:
        if ignores:
            ws.add_ignore(*[build(i) for i in ignores])
        now, ign = chars, list(ignores)
        objs = {}
        done = []
        parser = ENV["OneOrMore"](ENV["Word"]("ab")).finalize()
        for what, i, p in order:
            t = texts[i % len(texts)]
            if what == "fresh":
                t = "".join(list(t))      # an equal text, another object
            elif what == "parse":
                attempt(parser.element, t, 0)
                try:
                    parser.parse(t, parse_all=True)
                except ParseException:
                    pass
            elif what == "change":
                now = ["", " ", " \n", "b ", "a", " \t"][p % 6]
                ws.set_whitespace(now)
            elif what == "ignore" and len(ign) < 4:
                k = sorted(IGNORES)[p % len(IGNORES)]
                ws.add_ignore(build(k))
                ign.append(k)
            elif what == "backup":
                with ws.backup():
                    ws.skip("   other text", 0)
            done.append([what, i, p])
            pos = p % (len(t) + 1)
            msg = verify(h, ws, now, ign, t, pos, "whitespace %r ignoring %s after %s" % (now, ign, done))
            if msg:
                return msg


@case
def sweep(h, chars, ignores, texts):
    with Whitespace(chars) as ws:
        if ignores:
            ws.add_ignore(*[build(i) for i in ignores])
        for t in texts:
            for p in list(range(len(t) + 1)) + list(range(len(t), -1, -1)):
                msg = verify(h, ws, chars, ignores, t, p, "whitespace %r ignoring %s" % (chars, ignores))
                if msg:
                    return msg


@case
def positions_of_results(h, src, chars, texts):
    """the same parse, after others, stops at the same places"""
    with Whitespace(chars):
        e = try_build(src)
        if e is None:
            return
        first = [attempt(e, t, p) for t in texts for p in (0, 1) if p <= len(t)]
        for t in reversed(texts):
            attempt(e, t, 0)
        again = [attempt(e, t, p) for t in texts for p in (0, 1) if p <= len(t)]
        for a, b in zip(first, again):
            h.count((src, repr(a)) if isinstance(a, Ok) else None)
            if not same(a, b):
                return "%s in whitespace %r: %r, then %r" % (src, chars, a, b)


def main(h):
    rng = h.rng
    chars = [" \n\r\t", " ", "", "\n", " \t", "b", "ab", "-", "]^", "\\", "a-z", ".", " \u00a0\u3000", "é "]
    def igs():
        return rng.sample(sorted(IGNORES), rng.choice([0, 0, 1, 1, 2, 3]))
    def txt(n=9):
        return rand_text(rng, "ab #\n/xX!<>-]\\\u00a0 ", n)
    for _ in h.loop(700):
        ts = [txt() for _ in range(rng.choice([1, 2, 3, 4]))]
        order = [[rng.choice(["same"] * 5 + ["fresh", "fresh", "parse", "change", "ignore", "backup"]), rng.randrange(4), rng.randrange(12)] for _ in range(12)]
        h.run(skipping, rng.choice(chars), igs(), ts, order)
    for _ in h.loop(400):
        h.run(sweep, rng.choice(chars), igs(), [txt(14) for _ in range(5)])
    for _ in h.loop(300):
        h.run(positions_of_results, expr(rng, 2), rng.choice(chars[:6]), texts_for(rng, 8))
