#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["AstNode.Parse", "ModuleStatement"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Parsing is total: every byte string ends in success or an error",
 "Parsing any source text - arbitrary bytes, truncated anywhere, invalid UTF-8 or binary included - returns normally with nil or an error: it never panics and never fails to terminate. Called repeatedly, the tokenizer moves forward through the source: every token it reports without an error lies inside the source and consumes at least one byte of it, and once the end of input is reported it is reported again on every further request. Text made only of white space and comments parses successfully to an empty module.",
 ["inputs"], "every byte string as source, every sequence of tokenizer steps over it, every truncation point of a program, every nesting depth",
 "The tests run some 150 hand-written well-formed fragments; no test feeds arbitrary or truncated bytes, and termination/panic-freedom is a statement about all of them.",
 ["ast/tokens.go", "ast/ast.go", "ast/y.go"],
 [("Token.Next / next dispatch and scanners", "ast/tokens.go"), ("AstNode.Lex, AstNode.Parse", "ast/ast.go"), ("yyParse stack growth", "ast/y.go")],
 [("offset", "byte position of the tokenizer in the source", "ast/tokens.go Token.offset")], ["AstNode.Parse", "Token.Next"])
prop("C02", "White space, comments and preprocessor lines never change the result",
 "Spaces, tabs, carriage returns, line feeds, // comments running to the end of their line, and # preprocessor lines may be inserted, removed or altered between any two tokens without changing whether the text parses or what tree results, as long as tokens that would otherwise run together stay separated. The text of a comment or of a # line is never interpreted, and such text inside a string literal is never treated as a comment.",
 ["inputs", "programs"], "every token sequence, every position between tokens, every combination of trivia there and every comment body",
 "Tests use fixed layouts; that layout never matters is a relation between all pairs of texts with the same tokens.",
 ["ast/tokens.go"], [("skipSpace / skipComment / skipRegions", "ast/tokens.go")], None, ["AstNode.Parse", "Token.Next", "JSON"])
prop("C03", "Keywords match in any letter case and only as whole words; names are verbatim",
 "A reserved word or compilation directive is recognised in every mixture of upper- and lower-case letters and only as a complete word: any other word made of letters, digits and underscores and not starting with a digit is an identifier and appears in the tree spelled exactly as written. Directly after a dot every word, reserved or not, is a member name; after that one name, reserved words are reserved again.",
 ["inputs"], "every word up to a bounded length, every letter-case mask of every reserved word and directive, with and without a preceding dot",
 "Tests spell a handful of keywords in one or two cases; there are 2^n case variants of each word and unboundedly many near-misses.",
 ["ast/tokens.go"], [("keyword and directive tables, case folding", "ast/tokens.go tokens, directives, fastToLower"), ("member names after a dot", "ast/tokens.go Token.prevDot")],
 [("prevDot", "the previous token was a dot", "ast/tokens.go Token.prevDot")], ["Token.Next", "AstNode.Parse"])
prop("C04", "Literals keep their exact value",
 "A string literal yields exactly the text between its quotes: doubled quotes stay as written, a continuation line contributes a line feed, its bar and its text, and adjacent string literals are joined without separator. A decimal number yields the nearest double, a date literal the instant given by its digits alone (8, 12 or 14 of them, all zeros meaning the empty date), and True, False and Undefined their constants. A malformed literal - unterminated string or date, impossible date, date with another number of digits, number followed by a letter or with two points - is an error, never a different value.",
 ["inputs"], "every literal text up to the stated length, in expressions, parameter defaults and call arguments",
 "Tests check a few literals; exactness is a claim about every sequence of characters between the quotes, every digit string and every calendar date.",
 ["ast/tokens.go", "ast/grammar.y", "ast/y.go"], [("scanString, scanNumber, date parsing in Token.Next", "ast/tokens.go"), ("simple_expr actions", "ast/grammar.y")], None, ["AssignmentStatement", "ParamStatement.Default"])
prop("C05", "Blocks keep exactly their own statements, in source order",
 "The tree of an accepted module contains every procedure, function and statement of the source exactly once, in source order, inside exactly the block that encloses it: procedure body, loop body, condition branch, else branch, try part or handler part. Else-if branches keep their order and their own conditions, an absent or empty block is empty, and nothing from a neighbouring, enclosing or earlier block leaks in, wherever empty statements (stray semicolons) occur.",
 ["programs"], "every module built from the statement forms up to the stated number and nesting of statements, with optional semicolons in every allowed place",
 "The tests pin some fifty concrete trees; leaks depend on what precedes a block (parser stack contents), which only the space of all block sequences exercises.",
 ["ast/grammar.y", "ast/y.go", "ast/ast_struct.go"], [("body, opt_body, opt_stmt, stmt_if, opt_elseif_list, stmt_loop, stmt_tryCatch, funcProc actions", "ast/grammar.y"), ("ModuleStatement.Append", "ast/ast_struct.go")], None, ["ModuleStatement.Body"])
prop("C06", "Operators bind as in 1C, and every operand, minus and negation is kept",
 "In every accepted expression parentheses bind first, then unary minus, then * / %, then + and -, then the six comparisons, then Not, then And, then Or; binary operators of one level group from the left, and operands keep their left-right order. Every unary minus and every Not is represented exactly where it was written - none is dropped, duplicated or moved to another operand - whatever the operand is (literal, name, call, member chain, index, conditional, constructor or parenthesised expression). Call, index, constructor and conditional arguments keep their number, order and omitted positions.",
 ["programs"], "every expression up to the stated number of operators and operands over all operator and operand kinds",
 "Tests check about twenty expressions; grouping is decided by generated table entries for every pair of operators.",
 ["ast/grammar.y", "ast/y.go", "ast/ast.go", "ast/ast_struct.go", "ast/ast_print.go"], [("precedence declarations and expr actions", "ast/grammar.y"), ("unaryMinus, not", "ast/ast.go")], None, ["ExpStatement", "AstNode.Print"])
prop("C07", "Break, Continue, Return and bare Throw are accepted exactly where legal",
 "A break or continue statement is accepted if and only if it is inside the body of some loop; a return with a value if and only if it is inside a function; a throw without an argument if and only if it is inside an exception handler. This holds at every nesting depth and regardless of what procedures, loops or handlers were opened and closed earlier in the module.",
 ["programs"], "every nesting and every sequence of loops, handlers, conditions, procedures and functions around and before the statement, up to the stated depth",
 "Tests try single-loop examples; legality depends on nesting counters whose balance is a property of all statement histories.",
 ["ast/ast.go", "ast/grammar.y", "ast/y.go"], [("setLoopFlag, setTryFlag, isFunction, checkLoopOperator, checkThrowParam, checkReturnParam", "ast/ast.go")],
 [("isLoop, isTry, isFunction", "open loops, open handlers, inside a function", "ast/ast.go AstNode")], ["AstNode.Parse error"])
prop("C08", "Declarations are recorded exactly, and illegal order or duplicates rejected",
 "For every procedure, function and module variable the tree records its name, kind, directive, export mark, its parameters in order with their by-value mark and default, and its local variable declarations, exactly as written and only for that declaration. A module is rejected if it declares a module variable twice or a local variable twice in one procedure (spelled identically), if a variable declaration follows a procedure or statement, or if a procedure follows a module-level statement; otherwise declarations are accepted.",
 ["programs"], "every module skeleton up to the stated number of declarations, parameters and local variables, with all combinations of directive, export, by-value, default and equal or different names",
 "Tests pin single declarations; cross-talk between declarations and duplicates at distance need all combinations.",
 ["ast/grammar.y", "ast/y.go", "ast/ast.go", "ast/ast_struct.go"], [("funcProc, global_variables, declarations_method_param, explicit_variables actions", "ast/grammar.y"), ("createFunctionOrProcedure, appendVarStatements", "ast/ast.go"), ("ModuleStatement.Append", "ast/ast_struct.go")], None, ["ModuleStatement.GlobalVariables", "FunctionOrProcedure"])
prop("C09", "Printing a parsed module yields source with the same meaning",
 "For every module of the 1C language, in every print configuration, the printed text parses again and denotes the same module: same declarations, statements, nesting, operators and grouping, unary minuses and negations, arguments and literal values; only layout, redundant parentheses, letter case of keywords, and the spelling of equal numbers and dates may differ. Printing one statement on its own preserves it in the same sense.",
 ["programs", "configurations"], "every well-formed module up to the stated size and every margin / one-line setting",
 "The printing tests compare a dozen outputs byte for byte; that nothing is lost for any tree is a property of all combinations of node kinds and flags.",
 ["ast/ast_print.go", "ast/grammar.y"], [("print, printBodyItem, printExpression, printVarStatement, printParams", "ast/ast_print.go")], None, ["AstNode.Print", "AstNode.PrintStatementWithConf"])
prop("C10", "Printing is deterministic, read-only and layout-only configurable",
 "Printing the same tree with the same configuration always gives the same text, and printing changes neither the tree nor later prints. Two configurations differ only in white space between tokens: removing indentation and line breaks outside string literals gives the same token sequence for every margin and for one-line mode.",
 ["programs", "configurations", "histories"], "every module up to the stated size, every pair of configurations, every iteration order of unordered containers",
 "A test sees one run; dependence on map iteration order and on configuration pairs shows only over all orders and pairs.",
 ["ast/ast_print.go"], [("print, newLine, printBody", "ast/ast_print.go")], None, ["AstNode.Print", "JSON"])
prop("C11", "Walking visits every statement once with its true enclosing procedure",
 "Walking a module calls back exactly once for every procedure, function, statement in any block at any depth, and every operand that is a condition of an if or else-if, an argument of a direct call, an operand of a binary operator, a part of a conditional expression, or a return value. The reported enclosing procedure is the one that contains the node (a procedure itself for its own node) and none for module-level statements, the reported parent is the node or list that directly holds it, and a replacement of a statement of a block made through the reported node appears in the tree, and only there. A list of statements walked on its own (StatementWalk with the node that holds it) is visited by the same rule, with no enclosing procedure outside the list. A procedure, if, loop or return node the callback is given is the node of the tree itself, not a copy.",
 ["programs"], "every tree up to the stated size over all statement kinds, in every module order",
 "Tests walk two sample modules and count; the parent/root relation for all shapes and orders is not sampled.",
 ["ast/ast_struct.go"], [("ModuleStatement.Walk, StatementWalk, walkHelper", "ast/ast_struct.go")], None, ["Walk callback arguments"])
prop("C12", "Parses are independent of each other",
 "The outcome of a parse - tree, printed text, error text - depends only on the source given to that parser: not on what other sources were parsed or printed before in the process, whether they succeeded or failed, nor on other parsers alive or at work at the time, in the same or another goroutine; parsers share no memory that one of them changes without synchronisation. A later parse never alters a tree, printed text or error returned earlier.",
 ["histories", "schedules"], "every ordered pair (and bounded sequence) of parses over the stated program families, failing ones included; every pair running at the same time",
 "Each test parses once in a fresh parser; cross-parse interference is a property of pairs and sequences.",
 ["ast/ast.go", "ast/y.go", "ast/tokens.go"], [("per-parser state in AstNode and the yacc parser object", "ast/ast.go"), ("package-level tables", "ast/tokens.go, ast/y.go")], None, ["AstNode.Parse", "AstNode.Print", "JSON"])
prop("C13", "Errors carry the position and text of the offending token",
 "When a source is rejected because of an unexpected token, the message reports the line (counted from 1) and the column (characters before the token on its line) where that token starts and quotes the token's text; when the source ends too early, it reports the last token read. A failed parse always yields an error and a successful one never does.",
 ["inputs", "programs"], "every accepted prefix up to the stated length followed by every kind of unexpected token, at every line/column offset",
 "Two tests pin error positions for identifiers on short lines; positions depend on everything before the token.",
 ["ast/ast.go", "ast/tokens.go"], [("AstNode.Error", "ast/ast.go"), ("Token.GetPosition", "ast/tokens.go")], None, ["error text of Parse"])
prop("C14", "The exported fast lower-casing equals the reference on every string",
 "For every NUL-free text the exported fast lower-case function returns the text with A-Z, the Cyrillic capitals and Yo replaced by their lower-case forms and every other character unchanged. It terminates and touches no memory outside the string for every byte sequence, valid UTF-8 or not.",
 ["inputs"], "every NUL-terminated byte string up to the stated length",
 "No test runs it; memory safety and termination on truncated or invalid sequences cannot be sampled.",
 ["ast/fast_tolower/gowrap.go"], [("fastToLower (C)", "ast/fast_tolower/gowrap.go")], None, ["FastToLower"])
prop("C15", "JSON export is complete, faithful and stable",
 "For every accepted module the JSON export succeeds, is valid JSON, and mirrors the exported tree: every declaration, statement, name, operator code and literal in the same nesting and order. Repeated exports give identical bytes, and exporting does not change the tree.",
 ["programs"], "every accepted module up to the stated size",
 "Tests compare JSON of a few modules; that no node kind is lost or makes the export fail is a claim over all trees.",
 ["ast/ast.go", "ast/ast_struct.go"], [("AstNode.JSON", "ast/ast.go"), ("struct tags of the node types", "ast/ast_struct.go")], None, ["AstNode.JSON"])
prop("C16", "Exactly the token sequences of the language are accepted",
 "A source parses without error if and only if its tokens form a module of the 1C language as this parser supports it: every block is closed by its own end keyword, conditions and loops have their keywords and operands, brackets balance, binary operators stand between operands, arguments are separated by single commas, and statements are separated by semicolons (or follow a label's colon). Any token inserted, deleted or replaced that breaks this makes the parse fail.",
 ["inputs", "programs"], "every token sequence in the stated windows inside the stated contexts",
 "Tests contain a few rejected texts; acceptance is encoded in about a thousand generated table entries.",
 ["ast/grammar.y", "ast/y.go"], [("grammar rules and generated parse tables", "ast/grammar.y, ast/y.go")], None, ["AstNode.Parse error"])

prop("C17", "Formatting is idempotent: reformatting formatted code changes nothing",
 "For every module of the 1C language and every print configuration, parsing the printed text and printing it again with the same configuration gives exactly the same text, character for character.",
 ["programs", "configurations"], "every well-formed module up to the stated size and every margin / one-line setting",
 "The printing tests compare single outputs; that a second formatting pass never moves, adds or loses a character is a claim over all modules and configurations.",
 ["ast/ast_print.go", "ast/grammar.y", "ast/tokens.go"], [("print and its helpers", "ast/ast_print.go"), ("literal spelling kept by the tokenizer", "ast/tokens.go scanString, scanNumber")], None, ["AstNode.Print"])
prop("C18", "Everything a parse returned can be used: exports, prints and walks never fail",
 "Whatever source was parsed - accepted or rejected, strict 1C or only tolerated by this parser - JSON, Print in any configuration (margin zero or more), PrintStatement of any statement of a module or procedure body, Walk and SrsCode return normally. The JSON export succeeds and is valid JSON, using any of them again gives the same result, none of them changes the tree or a result returned earlier, and SrsCode is the source that was given.",
 ["inputs", "programs", "histories"], "every source up to the stated length or within the stated token edits, every consumer, used twice",
 "Tests use the consumers on a few well-formed programs; unusual but accepted trees (parenthesised lists, labels and negations in odd places, empty blocks) and rejected texts are never fed to them.",
 ["ast/ast.go", "ast/ast_print.go", "ast/ast_struct.go"], [("JSON, SrsCode", "ast/ast.go"), ("print dispatch over node types", "ast/ast_print.go"), ("walkHelper", "ast/ast_struct.go")], None, ["AstNode.JSON", "AstNode.Print", "AstNode.PrintStatement", "ModuleStatement.Walk"])
prop("C19", "Indentation of the printed module mirrors its nesting",
 "In a print that is not one-line every declaration (or its directive), statement, branch keyword and closing keyword begins a line of its own, indented by exactly the margin times the number of blocks (procedure bodies included) around it; local variable declarations count as part of the procedure body. A one-line print contains no line break between tokens except next to a compilation directive.",
 ["programs", "configurations"], "every well-formed module up to the stated size and every stated margin",
 "A dozen outputs are compared byte for byte; that depth is carried correctly through every combination of blocks is a claim over all nestings.",
 ["ast/ast_print.go"], [("depth passed through printBody, printIfStatement, printLoopStatement, printTryStatement; newLine", "ast/ast_print.go")], None, ["AstNode.Print"])
prop("C20", "The tokenizer reports exactly the words of the source, one by one",
 "Token.Next called repeatedly reports, for every source, exactly its tokens in order: each with the kind of the reserved word, directive, name, literal, label or operator it is (longest operator first, a word directly after a dot always a name, adjacent string literals as one), nothing for white space, comments and # lines, and an error exactly at the first malformed token. After each token the reported position lies between the end of that token and the start of the next.",
 ["inputs"], "every source up to the stated length and every token of it",
 "The tokenizer tests read a few hand-written lines; every combination of neighbouring characters, comment and literal boundaries is a claim over all texts.",
 ["ast/tokens.go"], [("Token.Next, next and the scanners", "ast/tokens.go"), ("Token.GetPosition", "ast/tokens.go")],
 [("offset, prevDot", "where the tokenizer stands and whether the previous token was a dot", "ast/tokens.go Token")], ["Token.Next", "Token.GetPosition"])
prop("C21", "A changed tree prints, exports and walks as the changed program",
 "A user may change a parsed tree through its exported fields: replace, insert, delete, repeat or reorder the statements of a block or the branches of a condition, replace a condition, operand, argument, bound, returned or assigned expression, or rename and re-mark declarations, loop variables and labels, with nodes made by this or another parse. Afterwards printing in any configuration, printing single statements, the JSON export and the walk show exactly the changed tree - the printed text reads back as it - whatever was printed, exported or walked before; results returned earlier and the module the nodes came from stay as they were.",
 ["programs"], "every such single change at every place of the stated programs",
 "Tests print and export trees as parsed; what a change made in between does to later results is a claim over all trees, places and changes.",
 ["ast/ast_print.go", "ast/ast.go", "ast/ast_struct.go"], [("Print, PrintStatement", "ast/ast_print.go"), ("JSON", "ast/ast.go"), ("ModuleStatement.Walk", "ast/ast_struct.go")], None, ["exported fields of the tree", "AstNode.Print", "AstNode.JSON", "ModuleStatement.Walk"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
