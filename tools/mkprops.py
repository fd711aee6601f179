#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","No built-in crashes the editor, whatever it is given",
 "For every buffer text, every cursor and mark position inside it, every remembered search and every argument list (any number of arguments, any kinds, any numbers including negative, huge, infinite and NaN), each built-in command returns a value or an error: it never panics and never indexes outside the text. Its loops terminate.",
 ["inputs","programs"],"every built-in, every text, every state reachable by a program, every argument list",
 "Tests call each built-in with a handful of small well-formed arguments; the crash cases are particular combinations of count, position and text length over an unbounded space.",
 ["edlisp/builtin_*.go","edlisp/eval.go"],
 [("argument count and kind checks","edlisp/builtin_*.go"),("slice bounds of the text edits","edlisp/builtin_delete_char.go, builtin_kill_line.go, builtin_kill_word.go, ...")],
 observe=["return of each built-in"])
p("C02","Cursor and mark always stay inside the text",
 "After any sequence of commands the cursor and the mark lie between 1 and the text length plus one, starting from a new buffer where both are 1. The position queries report exactly these values: cursor, mark, smallest position 1, largest position length plus one, size, and region beginning and end as their minimum and maximum.",
 ["histories","inputs"],"every finite history of built-in calls from every initial text",
 "An inductive invariant over unbounded histories; tests run short scripts and look at the final text only.",
 ["edlisp/eval.go","edlisp/builtin_point.go","edlisp/builtin_mark.go","edlisp/builtin_region_beginning.go","edlisp/builtin_region_end.go","edlisp/builtin_exchange_point_and_mark.go","edlisp/builtin_set_mark_command.go"],
 [("cursor and mark storage","edlisp/eval.go Buffer"),("per-command position update","edlisp/builtin_*.go")],
 state=[("point","1-based byte position of the cursor"),("mark","1-based byte position of the mark")])
p("C03","Edits change exactly the addressed bytes and keep the rest",
 "Insertion puts the given text at the cursor and moves the cursor behind it; character deletion (forward and backward), region deletion and region replacement remove exactly the addressed bytes, clipped to the text, put exactly the given replacement in their place (an empty region is left alone) and leave every other byte and its order unchanged. The cursor ends at the documented place (unchanged for forward deletion, start of the gap for backward and region deletion, end of the replacement for region replacement).",
 ["inputs"],"every text, cursor, mark, count and replacement string",
 "Byte-exactness for all positions, counts and strings; tests sample a few positions in short texts.",
 ["edlisp/eval.go","edlisp/builtin_insert.go","edlisp/builtin_delete_char.go","edlisp/builtin_delete_backward_char.go","edlisp/builtin_delete_region.go","edlisp/builtin_replace_region.go"],
 [("splice of the text","edlisp/eval.go Insert; edlisp/builtin_delete_*.go; edlisp/builtin_replace_region.go")])
p("C04","A search finds the nearest match, or fails and moves nothing",
 "Forward searches (literal and regular expression) succeed exactly when a match starts at or after the cursor and then select the first one; backward searches select the last match that lies before the cursor; the cursor moves to the end of the selected match, which is remembered exactly. A failing search, or an invalid regular expression, is an error and changes neither text, cursor, mark nor the remembered match.",
 ["inputs"],"every text, cursor position and pattern",
 "First/last occurrence is a universally quantified claim over all texts and patterns; tests use a few fixed ones.",
 ["edlisp/builtin_search_forward.go","edlisp/builtin_search_backward.go","edlisp/builtin_re_search_forward.go","edlisp/builtin_re_search_backward.go"],
 [("search area and match bookkeeping","edlisp/builtin_search_*.go, edlisp/builtin_re_search_*.go")],
 state=[("remembered match","text and positions of the last successful search")])
p("C05","Replacing the match replaces exactly the remembered match",
 "When the text at the remembered match position is still the matched text, replacing the match substitutes the replacement literally for exactly that occurrence, keeps everything else, and puts the cursor behind the replacement. Otherwise (no search yet, empty match, positions no longer valid, or the text there has changed) it is an error and nothing changes.",
 ["inputs","histories"],"every text, every remembered match (also one made stale by later edits), every replacement",
 "The dangerous histories put an edit between search and replacement; tests always replace right after searching.",
 ["edlisp/builtin_replace_match.go"],
 [("splice at remembered positions","edlisp/builtin_replace_match.go")],
 state=[("remembered match","text and positions of the last successful search")])
p("C06","Reading and moving never alter text; failed commands change nothing",
 "A motion, a query, a mark command, a search or a string function never changes the text; queries and string functions also leave cursor, mark and remembered match alone. A command that returns an error leaves text, cursor, mark and remembered match exactly as they were, and no command ever modifies the values it was given as arguments.",
 ["inputs"],"every command, every state, every argument list including ill-formed ones",
 "A frame condition over all commands, states and arguments; tests check the intended effect, not the absence of others.",
 ["edlisp/builtin_*.go"],
 [("argument checks precede effects","edlisp/builtin_*.go")])
p("C07","Character and word commands follow one definition of a word",
 "Character motion moves by exactly the count, clipped to the text. A word is a maximal run of ASCII letters and digits: forward word motion ends after the count-th word end at or after the cursor, backward motion at the count-th word start before it, word killing removes exactly the bytes the motion crosses (the backward one including the character at the cursor, as documented), and marking a word selects the run around the cursor.",
 ["inputs"],"every text, cursor position and count",
 "Unbounded scans over arbitrary texts with arbitrary repetition counts.",
 ["edlisp/helpers.go","edlisp/builtin_forward_char.go","edlisp/builtin_backward_char.go","edlisp/builtin_forward_word.go","edlisp/builtin_backward_word.go","edlisp/builtin_kill_word.go","edlisp/builtin_backward_kill_word.go","edlisp/builtin_mark_word.go"],
 [("word character test","edlisp/helpers.go isLetter"),("scan loops","edlisp/builtin_*word*.go")])
p("C08","Line commands agree on what a line is",
 "Lines are separated by newline bytes only: going to line N puts the cursor at the start of the N-th line (clipped to the existing lines), the line-number query is one plus the number of newlines before the cursor, and line beginning and end are the nearest newline boundaries around the cursor. Marking or deleting N lines covers exactly N lines from the start of the cursor's line with their newlines; killing covers the rest of the line as documented.",
 ["inputs"],"every text, cursor position and line count",
 "Holds for every placement of newlines, including empty lines and texts with and without a final newline; tests sample a few.",
 ["edlisp/builtin_goto_line.go","edlisp/builtin_line_number_at_pos.go","edlisp/builtin_beginning_of_line.go","edlisp/builtin_end_of_line.go","edlisp/builtin_mark_line.go","edlisp/builtin_delete_line.go","edlisp/builtin_kill_line.go"],
 [("newline scans","edlisp/builtin_*line*.go")])
p("C09","Scripts run in order, stop at the first error and report it truthfully",
 "Instructions run one after another, each exactly once, arguments left to right before the call; the value of the last instruction is the result, and literals evaluate to themselves. At the first failing instruction execution stops, and the error reports that instruction, its index, the text, cursor, mark and remembered match at that moment and the original cause; undefined functions and malformed calls are errors.",
 ["programs"],"every program (any nesting), every function table, every buffer",
 "Over all programs, not the sampled scripts; the error report of a middle instruction is hardly tested.",
 ["edlisp/eval.go","edlisp/error.go"],
 [("instruction loop","edlisp/eval.go EvalWithTrace"),("call evaluation","edlisp/eval.go evalExpression"),("error snapshot","edlisp/error.go NewExecutionError")])
p("C10","A file is rewritten only with the complete result of a successful script",
 "Editing a file writes it only after the script has run to completion without error, and then writes exactly the edited text; if reading, parsing or executing fails, no file is changed. With several files each is handled on its own and reported in order; a dry run writes nothing, a backup holds the text from before the edit and is written first, and output redirection never touches the input file.",
 ["inputs","fault_sequences"],"every set of files, script, format, option combination and every pattern of read and write failures",
 "Depends on which file operation fails and on option combinations; tests cover the happy path.",
 ["texted.go","commands/edit.go"],
 [("read, execute, write","texted.go EditFile, EditFiles"),("in-place loop and backup","commands/edit.go processFilesInPlace"),("output redirection","commands/edit.go processSingleFileToOutput")])
p("C11","Script text is split and parsed without loss",
 "Separators, spaces and parentheses inside a quoted string never split it, and outside quotes they always do; every token of a line ends up, once and in order, in the parsed expression, nested as the parentheses say. A line with an unterminated string, unbalanced parentheses or anything after a complete parenthesised expression is rejected rather than parsed in part.",
 ["inputs"],"every script text",
 "Over all strings with arbitrary quoting and nesting; tests sample well-formed scripts.",
 ["edlisp/parser/linebased.go"],
 [("token scanner","edlisp/parser/linebased.go tokenize"),("command splitter","edlisp/parser/linebased.go splitOnSemicolons"),("recursive descent","edlisp/parser/linebased.go parseTokens, parseList, parseShellLike")])
p("C12","String functions compute their documented result and nothing else",
 "Concatenation, length, substring, case conversion, capitalisation, matching and regular-expression replacement on strings return exactly the documented function of their arguments, with positions counted in bytes and clipped to the string. They do not depend on the buffer.",
 ["inputs"],"every argument string, position and pattern",
 "Pure functions over unbounded strings; tests sample ASCII examples.",
 ["edlisp/builtin_concat.go","edlisp/builtin_length.go","edlisp/builtin_substring.go","edlisp/builtin_buffer_substring.go","edlisp/builtin_upcase.go","edlisp/builtin_downcase.go","edlisp/builtin_capitalize.go","edlisp/builtin_string_match.go","edlisp/builtin_replace_regexp_in_string.go","edlisp/builtin_looking_at.go","edlisp/builtin_looking_back.go"],
 [("string functions","edlisp/builtin_concat.go ... builtin_replace_regexp_in_string.go")])
p("C13","Every command name runs its own, documented command",
 "In the default environment each command name is bound to the command of that name and to no other, and the set of names with documentation is exactly the set of names that can be called.",
 ["programs"],"every name a program can call",
 "Tests call a few dozen names and never compare the two tables.",
 ["edlisp/eval.go","edlisp/documentation_registry.go","edlisp/builtin_*.go"],
 [("function table","edlisp/eval.go NewDefaultEnvironment"),("documentation registrations","edlisp/builtin_*.go init functions")])
p("C14","Writing values renders every element, in order, in the chosen format",
 "Writing a program in a format emits one rendering per expression in order, each containing every element of the expression in order, nested as the expression is; a value the format cannot express is reported as an error. Writing never modifies the expressions.",
 ["inputs"],"every expression, every format",
 "Over all nestings and element kinds; tests sample a few lists.",
 ["edlisp/writer/sexp.go","edlisp/writer/json.go","edlisp/writer/shell.go","edlisp/list.go"],
 [("format writers","edlisp/writer/*.go")])
p("C15","JSON scripts convert element by element, and nothing else is accepted",
 "A JSON script converts to exactly the program it spells: every array to a list of the same length and order, its first string to a symbol, later strings to strings, numbers to numbers, nested arrays recursively. Anything else (an array not starting with a string, booleans, null, objects, top-level scalars in a script string) is rejected as a whole.",
 ["inputs"],"every JSON value",
 "Over all nestings; tests sample a few documents.",
 ["edlisp/parser/json.go"],
 [("conversion","edlisp/parser/json.go convertJSONValue, convertJSONArray, convertJSONItem"),("validation","edlisp/parser/json.go validateJSONValue")])
p("C16","Values and lists behave as immutable mathematical values",
 "Structural equality is true exactly for values of the same kind with equal contents, element by element. List operations (first, rest, append, get, length) return exactly the corresponding sequence result and never change the list they are given.",
 ["inputs"],"every value and every index",
 "Over all nested values; tests sample a few.",
 ["edlisp/equal.go","edlisp/list.go","edlisp/number.go","edlisp/string.go","edlisp/symbol.go"],
 [("equality","edlisp/equal.go Equal"),("list operations","edlisp/list.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
