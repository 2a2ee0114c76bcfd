"""what each property's check consists of (levels, notes, bounded stand-ins)"""

TRUSTED = [
    "pyvc: the verifier in /verif/pyvc (symbolic execution of the Python abstract syntax, its model of the Python subset, invariant search)",
    "z3",
    "the re module: a compiled pattern's match(string,pos) is a function of pattern, string, pos whose end lies between pos and len(string)",
    "mo_future, mo_dots, mo_logs, mo_imports helpers as modelled in pyvc (first, is_null, sort_using_cmp, Log.error raises)",
    "CPython list, dict, str and int operations as modelled in pyvc/exec.py",
    "field types listed in pyvc/contracts/base.py (TYPES, CFG)",
]
ASSUMPTIONS = [
    "a call of a child's _parse/parse_impl or of a whitespace's skip is abstracted by its interface contract: it is a function of expression, text, position and the actions flag, its span lies inside the text at or after the position, and it fails only with the parse-failure exception",
    "parse actions are functions of their arguments",
    "no other thread runs (C29 is not claimed), memory and recursion depth suffice",
]

def p(note, bounded=(), level="proof", assumptions=(), contracts=True):
    return {"note": note, "bounded": list(bounded), "level": level, "assumptions": list(assumptions), "contracts": contracts}

COST = {"enhancement.Many.__init__": 7, "expressions.MatchAll.__init__": 7, "core.Parser._transformString": 50, "results.ParseResults.__setitem__": 20, "results.ParseResults.__init__": 15, "exceptions.ParseException.best_cause": 10, "expressions.Or.parse_impl": 20, "enhancement.SkipTo.parse_impl": 20, "enhancement.Many.parse_impl": 15, "enhancement.ZeroOrMore.parse_impl": 12, "expressions.And.parse_impl": 8}

PROPS = {
    "C01": p("span postcondition of every parse_impl under contract"),
    "C02": p("And.parse_impl equals the recursive specification SEQ over its elements' interface contracts; the constructor and + and - make a sequence of what the operands stand for, in order", assumptions=["streamline keeps the meaning (contract of And.streamline under C22, relative to the laws stated there)"]),
    "C03": p("MatchFirst/Fast.parse_impl return the first alternative that matches; the shortlist is the lookup of the matched prefix; the constructor and | keep the operands in order; expecting() of every class: what matches starts with one of the texts expected; faster() keeps every alternative, once, in order, alone or in a group; its list without repeats keeps each text once, in the order of first use", ["Fast.__init__: the table of a group"], assumptions=["a match starts where, or behind where, it is tried", "the pattern of a terminal matches only texts that start as its class says", "a group (Fast) matches as the first of its alternatives does"]),
    "C04": p("Or.parse_impl returns the earliest of the alternatives that reach furthest; the constructor and ^ keep the operands in order; expecting() and faster() as in C03", ["Fast.__init__: the table of a group"], assumptions=["the pattern of a terminal matches only texts that start as its class says", "a group (Fast) lists the alternatives that can match"]),
    "C05": p("Many/ZeroOrMore/Optional equal the recursive specification REPEAT; termination measure of the loop; the constructors and [..] keep the bounds asked for", assumptions=["streamline keeps the meaning (contract of Many.streamline under C22)"]),
    "C06": p("bounded comparison with a reference reading of match-all; contracts of its constructor and of &", ["MatchAll.parse_impl", "MatchAll.streamline"], level="exploration"),
    "C07": p("LookAhead, NotAny, PrecededBy equal their specifications and leave the position; a negative look-ahead keeps the pattern of not matching its expression exactly when that has a pattern", ["that the pattern of a plain token decides like the token"]),
    "C08": p("SkipTo equals the recursive specification SKIPTO; its constructor keeps the options given; `... + x` is a skip to x and then x, with the skipped text named"),
    "C09": p("each terminal's parse_impl succeeds exactly where specified, with the specified end and token; constructors of literals, keywords, close matches and white space keep what is given and compile the pattern specified, words and anchors included", ["what a pattern text matches (re module)"]),
    "C10": p("regex_range: an alternation of brackets and escapes that names exactly the characters of the set, one by one or in ranges; regex_caseless: both cases of each letter, in order; a word is compiled to one first character and as many body characters as its limits allow; the patterns of literals, keywords, character sets and of composed expressions are the ones specified, with the precedence their context needs", ["what a pattern text matches (re module)"],
        assumptions=["the table of escapes denotes the characters it is for", "sorting a set of characters orders them by code, each once"]),
    "C11": p("_parse equals the recursive specification ACTIONS over the element's actions (ghost log of the calls); the wrapper of an action makes of what the function returns or raises what is specified; conditions; adding and clearing actions gives a copy with exactly the actions specified", ["how many arguments a function takes (inspect)", "a constant in place of an action"],
        assumptions=["an action does not change results that exist", "set_config replaces the named fields only", "the lists of a result are its own"]),
    "C12": p("_parseString, parse and matches: success exactly where the element matches after the leading whitespace and, on request, only line breaks are left; the value returned; the whitespace skipped is the one all parts agree on, each asked as its class says; the wrapper of the entry points resets, then parses, all under the lock; parse_file parses what the file holds, and closes it", assumptions=["the pattern of a whitespace is compiled (contract of its constructor)", "reset actions change nothing a parse depends on but what they reset", "opening and reading a file give its text"]),
    "C13": p("_scan_string equals the recursive specification SCAN and terminates; scan_string and _search_string are maps of it; the wrapper of the entry points resets, then scans, under the lock"),
    "C14": p("_split and _transformString equal recursive specifications over the scan, whose spans are proved ordered, disjoint and inside the text; the replacement of a match alternates the texts and variables of the template", assumptions=["map(text, ...) and join are functions of the sequence"]),
    "C15": p("iteration, length, truth, indexing, slices, the nested lists and the value are each shown equal to a fold over the raw tokens", assumptions=["a result that stands for a forward holds a result as its first token", "trees of results are finite and not shared", "text(x) is a function of x", "the views of the results among the tokens are abstracted by uninterpreted functions (their own contract, by induction on the tree)"]),
    "C16": p("look-up by name is shown equal to a fold over the raw tokens of the open scope; get and in agree with it; items, keys and values list the named tokens of the open scope, each name once, in order; calling a repetition or a sequence with a name gives a copy that keeps its result together under that name", assumptions=["a dictionary keeps its names in order of first use (results.add, which fills it, is under contract)", "a result that stands for a forward holds a result as its first token", "trees of results are finite and not shared", "text(x) is a function of x", "the views of the results among the tokens are abstracted by uninterpreted functions (their own contract, by induction on the tree)"]),
    "C17": p("assigning and erasing a name are shown equal to a fold over the raw tokens (ghost log of what is erased or set in the results among them); a copy of a result has tokens of its own", ["sequences of assignments"], assumptions=["a result that stands for a forward holds a result as its first token", "trees of results are finite and not shared", "text(x) is a function of x", "the views of the results among the tokens are abstracted by uninterpreted functions (their own contract, by induction on the tree)"]),
    "C18": p("_parse: a failure names expression, position and text; line, column, marked line are those of the position; compare_causes orders by position, naming and message alone; loc is the furthest of the causes, and best_cause is at it; the message names what was expected, what was found there, and position, line and column; sequences, choices, repetitions and wrappers hand on exactly the failures of the pieces they tried and of the matches they kept (second contracts on the parse_impl methods)", ["MatchAll.parse_impl", "PrecededBy.parse_impl"],
        assumptions=["causes are all failures of parsing of the same text, or none is", "sort_using_cmp sorts", "rfind, find and count do what they say", "trees of causes are finite"]),
    "C19": p("skip returns the end of the match of the context's pattern whatever is in its cache, whose invariant it keeps; every change of the context empties the cache and compiles the pattern anew; the pattern is the one specified", ["what the pattern text matches (re module)"],
        assumptions=["re.compile and match are functions of pattern and text", "the pattern does not change between a backup of the cache and its restoration", "the cache and the lists of a context are held by it alone", "positions are not negative"]),
    "C20": p("entering pushes the current context and makes a copy current that holds everything of the original in lists of its own; leaving restores what was current, and only for what was entered last; a new context ignores nothing, is a copy of nothing and has lists of its own",
        assumptions=["the lists of a context are held by it alone", "sorting the characters of a sorted set of characters changes nothing"]),
    "C21": p("frame conditions: no parse_impl and nothing that derives an expression from another (copy of every class but Forward, set_token_name, __call__, add_parse_action, add_condition, clear_parse_action, /) writes to anything that existed (streamline only marks itself and sets its shortlist: contracts of C22); what it returns is a copy but for what was asked", [],
        assumptions=["set_config replaces the named fields only", "an action does not change results that exist"]),
    "C22": p("streamline of every class returns what means the same, given the laws of nesting; which expressions have a name or action of their own; bounded comparison of grammars with their streamlined versions", ["the laws: sequences and choices nest, an alternative that repeats and empties do not matter, one part alone means itself"], level="exploration", assumptions=["the laws (false for an optional part alone in another before whitespace: the known finding)", "faster() makes of alternatives what means the same", "no skip waits for its target", "the part of a Combine is simplified (its constructor does)"]),
    "C23": p("bounded comparison of trees with a binding-power parser", ["infix_notation"], level="exploration", contracts=False),
    "C24": p("Forward.parse_impl equals its definition's _parse; min_length of every class (but match-all and Regex) is shown no longer than any match, given the contract of the class's parse_impl and the interface contract of its parts; check_recursion of each class refuses exactly when a part that can be reached without consuming does, and a definition keeps what the operand stands for and refuses when that comes back; bounded comparison of refusals with a separate analysis of the definition", ["refusing by the rules of check_recursion is refusing left recursion", "MatchAll.min_length, Regex.min_length"],
        assumptions=["actions do not shorten the span of a match", "the pattern of a terminal matches no less than the minimum it was made for", "what faster() makes of alternatives is made of them", "the result of Or is that of an alternative (C04)"]),
    "C25": p("delimited_list is one item, then any number of separator and item, separators left out or all in one text (contract); bounded comparison with the longest literal and a token by token reading of lists", ["one_of"], level="exploration"),
    "C26": p("Regex.parse_impl succeeds exactly where the engine's match does, with its end and text; the constructor compiles the pattern given, knows whether all of it was understood; a substitution expands its template, or calls its function, with the match found; bounded comparison of construction and capture groups with the re module", ["capture_groups", "what a pattern text matches (re module)"]),
    "C27": p("ParseEnhancement and Combine parse_impl succeed exactly where, and as far as, the inner expression does; the action of suppress drops the tokens and keeps the span, suppress of a group, a forward and a Suppress gives an expression that carries that action; the action of Dict and OpenDict adds exactly one named result for each entry that shows something", ["text of a name that is not a string"], assumptions=["text(x) is a function of x", "trees of results are finite and not shared"]),
    "C28": p("debug_parse returns what the wrapped _parse returns and fails where it fails, writing nothing but the debugger's own fields; Debugger.__init__/__enter__/__exit__: leaving restores what the last entry replaced", ["printing functions of debug"], assumptions=["the printing functions of debug return and change nothing", "the fail action returns"]),
}

NA = {
    "C29": "parsing from several threads: the module-wide locker, the shared skip cache and module-global parse-action state make the outcome depend on interleavings; contracts over a sequential semantics of the functions cannot express a schedule, and no thread-modular verifier for Python is present",
    "C30": "termination of a whole parse is a property of the recursive call structure of the grammar object (a well-founded order over run-time expression graphs and positions); the contracts of the functions bound their own loops (C05, C08, C13) but a child's _parse is abstracted as a function that returns",
}
