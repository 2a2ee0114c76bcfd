import io, tempfile
from lib import *

RULE = ("random grammars x texts x parse_all on/off, parse/matches against the element's own match at the first "
        "non-white position; non-trivial: a successful parse or a failure of parse_all only, keyed by grammar and text")

TAIL = __import__("re").compile("(?:\\r?\\n)*$")


def skip_ref(ws, text, pos):
    while pos < len(text) and text[pos] in ws:
        pos += 1
    return pos


def parser_of(src):
    """-> (grammar, its Parser, its whitespace characters), None when it is refused or its whitespace is ambiguous"""
    e = try_build(src)
    if e is None:
        return None
    try:
        p = e.finalize()
    except Exception:
        return None
    if p.whitespace.ignore_list:
        return None
    return e, p, p.whitespace.white_chars


def text_outcome(fn, *args, **kw):
    try:
        return Ok(0, 0, None, fn(*args, **kw))
    except ParseException as e:
        return Fail(e)
    except Timeout:
        raise
    except RecursionError:
        return Other("RecursionError")
    except Exception as e:
        return Other("%s: %s" % (type(e).__name__, str(e).split("\n")[0][:100]))


@case
def parsing(h, src, ws, texts):
    if ws is None:
        return parsing_(h, src, ws, texts)
    with Whitespace(ws):
        return parsing_(h, src, ws, texts)


def parsing_(h, src, ws, texts):
    g = parser_of(src)
    if g is None:
        return
    e, parser, white = g
    if ws is not None and parser.whitespace.white_chars != "".join(sorted(set(ws))) and not src.startswith("inws"):
        if "inws" not in src:
            return "%s built in whitespace %r is parsed with whitespace %r" % (src, ws, parser.whitespace.white_chars)
    plain = e.streamline()
    for t in texts:
        start = skip_ref(white, t, 0)
        o = attempt(plain, t, start)
        if isinstance(o, Other):
            continue
        rest = None
        if isinstance(o, Ok):
            rest = bool(TAIL.match(t, skip_ref(white, t, o.end)))
        for parse_all in (False, True):
            want = isinstance(o, Ok) and (rest or not parse_all)
            where = "%s on %r (parse_all=%s, whitespace %r)" % (src, t, parse_all, white)
            h.count((src, t) if isinstance(o, Ok) else None)
            for who, fn in (("parser", parser.parse), ("grammar", e.parse)):
                got = text_outcome(fn, t, parse_all=parse_all)
                if isinstance(got, Other):
                    return "%s: %s.parse: %r instead of %s" % (where, who, got, "a result" if want else "a parse failure")
                if isinstance(got, Ok) != want:
                    return "%s: %s.parse %s, but the grammar at %d gives %r" % (where, who, "succeeds" if isinstance(got, Ok) else "fails", start, o)
                if want:
                    r = got.raw
                    if not isinstance(r, ParseResults):
                        return "%s: returned %r" % (where, type(r))
                    if (r.start, r.end) != (o.start, o.end):
                        return "%s: span %s, expected %s" % (where, (r.start, r.end), (o.start, o.end))
                    exp = o.toks if plain.token_name else canon(o.raw)
                    if canon(r) != exp:
                        return "%s: %s.parse gives %r, expected %r" % (where, who, canon(r), exp)
            with open(FILE, "w", newline="") as f:
                f.write(t)
            with open(FILE) as f:
                same_text = f.read() == t       # line ends as they are written
            for who, arg in (("open file", io.StringIO(t)), ("file name", FILE)):
                if who == "file name" and not same_text:
                    continue
                got = text_outcome(e.parse_file, arg, parse_all=parse_all)
                if isinstance(got, Ok) != want:
                    return "%s: parse_file(%s) %s, expected a %s" % (where, who, got, "match" if want else "failure")
                if want and ((got.raw.start, got.raw.end) != (o.start, o.end) or canon(got.raw) != exp):
                    return "%s: parse_file(%s) gives %r, expected %r" % (where, who, canon(got.raw), exp)
            got = text_outcome(e.matches, t, parse_all=parse_all)
            if not isinstance(got, Ok) or got.raw is not want:
                return "%s: matches() gives %r, expected %r" % (where, got.raw if isinstance(got, Ok) else got, want)
        got = text_outcome(e.matches, t)
        if not isinstance(got, Ok) or got.raw is not (isinstance(o, Ok) and rest):
            return "%s on %r: matches() gives %r" % (src, t, got)


@case
def with_ignore(h, chars, ignore, texts):
    """leading and trailing ignored text is stepped over"""
    import re
    with Whitespace(chars) as ws:
        ws.add_ignore(build(ignore))
        g = ENV["OneOrMore"](ENV["Word"]("ab"))
        p = g.finalize()
    rx = {'Literal("#")': "#", 'Regex("#[^\\n]*")': "#[^\n]*", 'Literal("//")': "//"}[ignore]
    white = "(?>(?:[%s]|%s)*)" % (re.escape(chars), rx) if chars else "(?>(?:%s)*)" % rx
    sep = white
    full = re.compile("%s[ab]+(?>(?:%s[ab]+)*)" % (white, white))
    for t in texts:
        m = full.match(t)
        all_ = bool(m) and bool(re.compile("%s(?:\\r?\\n)*$" % white).match(t, m.end()))
        h.count((chars, ignore, t) if m else None)
        for pa, want in ((False, bool(m)), (True, all_)):
            got = text_outcome(p.parse, t, parse_all=pa)
            if isinstance(got, Ok) != want:
                return "OneOrMore(Word('ab')) with whitespace %r ignoring %s on %r (parse_all=%s): %r, expected %s" % (chars, ignore, t, pa, got, want)


FILE = None


def main(h):
    with tempfile.TemporaryDirectory() as d:
        global FILE
        FILE = os.path.join(d, "text")
        main_(h)


def main_(h):
    rng = h.rng
    tails = ["", "\n", "\r\n", " \n ", "\n\n", " ", "x", "\r", " \r\n\n", "\nb"]
    for _ in h.loop(1300):
        src = expr(rng, rng.choice([0, 1, 1, 2, 3]))
        ts = texts_for(rng, 6)
        ts += [rng.choice(["", " ", "\n", "  "]) + t + rng.choice(tails) for t in ts]
        h.run(parsing, src, rng.choice([None, None, None, "", " ", " \t", "b "]), ts)
    for _ in h.loop(150):
        h.run(with_ignore, rng.choice(["", " ", " \n"]), rng.choice(['Literal("#")', 'Regex("#[^\\n]*")', 'Literal("//")']),
              [rand_text(rng, "ab #/\n", 9) for _ in range(25)])
