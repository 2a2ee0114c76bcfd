"""types of fields, interface contracts, trusted library models"""
import z3
from ..smt import *
from ..values import *
from ..registry import *
from ..registry import F_start, F_end

TYPES = {
    "ParserElement.parse_action": "list:fn", "ParserElement.parser_name": "opt:str", "ParserElement.token_name": "str",
    "ParserElement.streamlined": "bool", "ParserElement.min_length_cache": "opt:int",
    "ParserElement.parser_config": "cfg:ParserElement",
    "And.parser_config": "cfg:And", "Many.parser_config": "cfg:Many", "Optional.parser_config": "cfg:Optional", "SkipTo.parser_config": "cfg:SkipTo",
    "PrecededBy.parser_config": "cfg:PrecededBy", "MatchAll.parser_config": "cfg:MatchAll", "Combine.parser_config": "cfg:Combine", "Token.parser_config": "cfg:Token",
    "Keyword.parser_config": "cfg:Keyword", "CloseMatch.parser_config": "cfg:CloseMatch", "Word.parser_config": "cfg:Word", "Char.parser_config": "cfg:Char",
    "CharsNotIn.parser_config": "cfg:CharsNotIn", "White.parser_config": "cfg:White", "WordStart.parser_config": "cfg:WordStart", "WordEnd.parser_config": "cfg:WordEnd",
    "ParseExpression.exprs": "list:ref:ParserElement", "ParseEnhancement.expr": "ref:ParserElement", "Forward.expr": "opt:ref:ParserElement",
    "Forward.used_by": "list:ref:ParserElement", "Forward.origin": "opt:ref:ParserElement", "Forward._str": "opt:str", "Forward._in_regex": "opt:bool", "Forward._in_expecting": "opt:bool", "Forward.__in_whitespace": "bool", "Forward._Forward__in_whitespace": "bool",
    "Or.alternate": "list:ref:ParserElement", "MatchFirst.alternate": "list:ref:ParserElement", "NotAny.regex": "opt:ref:RegexObj", "Word.regex": "ref:RegexObj",
    "Regex.regex": "ref:RegexObj", "Regex.expr": "ref:ParserElement", "Regex.parsed_all": "dyn",
    "Fast.regex": "ref:RegexObj",
    "ParseResults._type": "ref:ParserElement", "ParseResults.start": "int", "ParseResults.end": "int", "ParseResults.tokens": "list:dyn",
    "ParseResults.failures": "list:dyn", "ParseResults.timing": "dyn",
    "Parser.element": "ref:ParserElement", "Parser.whitespace": "ref:Whitespace", "Parser.named": "bool", "Parser.streamlined": "bool",
    "ParseException.expr": "ref:ParserElement", "ParseException.start": "int", "ParseException.string": "str", "ParseException.unsorted_cause": "dyn",
    "ParseException._msg": "opt:str", "ParseException._causes": "opt:list:dyn",
    "Whitespace.white_chars": "str", "Whitespace.ignore_list": "list:ref:ParserElement", "Whitespace.content": "opt:str", "Whitespace.skips": "list:int",
    "Whitespace.regex": "opt:ref:RegexObj", "Whitespace.expr": "opt:ref:ParserElement", "Whitespace.parent": "opt:ref:Whitespace", "Whitespace.copies": "list:ref:Whitespace",
    "Whitespace.id": "int", "Whitespace.keyword_chars": "str", "Whitespace._in_regex": "bool", "Whitespace.literal": "dyn", "Whitespace.debug_actions": "dyn", "Whitespace.all_exceptions": "dyn",
    "Backup.whitespace": "ref:Whitespace", "Backup.content": "opt:str", "Backup.skips": "list:int",
    "Debugger.previous_parse": "list:dyn", "Debugger.was_debugging": "list:dyn", "Debugger.parse_count": "int", "Debugger.max_stack_depth": "int", "Debugger.silent": "bool",
    "RecursiveGrammarException.parseElementTrace": "dyn",
}
CFG = {
    "callDuringTry": "bool", "fail_action": "opt:fn", "match": "str", "regex": "ref:RegexObj", "whitespace": "ref:Whitespace",
    "min_match": "int", "max_match": "int", "end": "opt:ref:RegexObj", "default_value": "list", "include": "bool", "fail": "opt:ref:ParserElement",
    "ignore": "opt:ref:ParserElement", "retreat": "int", "exact": "bool", "separator": "str", "ident_chars": "str", "max_mismatches": "int",
    "min": "int", "init_chars": "str", "MatchAll.min_match": "list:int", "MatchAll.max_match": "list:int", "Char.include": "str", "Char.exclude": "str",
    "min_len": "int", "max_len": "int", "not_chars": "str", "white_chars": "str", "word_chars": "str",
}
GLOBALS = {
    "utils.MAX_INT": "maxint", "utils.empty_tuple": "emptytuple", "core.locker": "o:lock", "core._reset_actions": "list:fn", "core.DEBUG": "bool",
    "whitespaces.CURRENT": "ref:Whitespace", "whitespaces.NO_WHITESPACE": "ref:Whitespace", "whitespaces.STANDARD_WHITESPACE": "ref:Whitespace",
    "whitespaces.whitespace_stack": "list:ref:Whitespace", "core.NO_PARSER": "ref:ParserElement", "core.NO_RESULTS": "ref:ParseResults",
    "debug.DEBUGGER": "dyn", "enhancement._get": "o:_get", "core.regex_parameters": "o:regex_parameters",
    "helpers.regex_parameters": "o:regex_parameters",
}

def install(reg):
    reg.types.update(TYPES); reg.cfg_types.update(CFG); reg.globals.update(GLOBALS)
    reg.watch_globals |= {"whitespaces.CURRENT", "debug.DEBUGGER"}
    reg.ifaces["ParserElement._parse"] = Iface("ParserElement._parse", iface_parse, "ParserElement", "_parse")
    reg.ifaces["ParserElement.parse_impl"] = Iface("ParserElement.parse_impl", iface_parse_impl, "ParserElement", "parse_impl")
    reg.ifaces["Whitespace.skip"] = Iface("Whitespace.skip", iface_skip, "Whitespace", "skip")
    for n in ("ParseResults", "ForwardResults"): reg.constructors[n] = new_result
    for n in ("ParseException", "ParseSyntaxException"): reg.constructors[n] = new_exception
    reg.ifaces["ParserElement.__str__"] = Iface("ParserElement.__str__", lambda p, a: VStr(p.fresh(Str, "str")), "ParserElement", "__str__")
    reg.ifaces["ParseResults.__bool__"] = Iface("ParseResults.__bool__", lambda p, a: VBool(PR_TRUE(p.resolve(a[0]).t)), "ParseResults", "__bool__")
    reg.methods["Whitespace.skip"] = None
    del reg.methods["Whitespace.skip"]
