#!/usr/bin/env python3
"""Writes /verif/checks.json (what each check runs) and /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
def H(h, note="", must=(), max_s=120, steps=0, **params):
    d = {"h": h, "params": params, "max_s": max_s, "must": list(must), "note": note}
    if steps:
        d["steps"] = steps
    return d
COMMON_ASSUME = [
 "Go's semantics as implemented by the symbolic executor over go/ssa (sampled paths are replayed on the natively compiled code and must agree)",
 "integers, slices, maps, interfaces and closures are executed exactly; strconv.ParseFloat and time.Parse are the Go library's own code on values the path condition has fixed",
 "the reference lexer and parser in /verif/harness/h, written from the language description and the repository's grammar, state the expected outcome",
 "forms the parser tolerates although 1C does not have them (listed in DESIGN.md) are left open",
]
def check(id, quick, thorough, bounds, outside, assumptions=()):
    C[id] = {"quick": quick, "thorough": thorough, "bounds": bounds, "outside": outside, "assumptions": COMMON_ASSUME + list(assumptions)}

check("C01",
 [H("TotalBytes", "all texts of at most 2 bytes", ["accepted", "error"], n=2),
  H("TotalIn", "1 arbitrary byte in each of 53 frames", ["accepted", "error"], n=1),
  H("TotalCut", "14 base programs cut at every byte", ["accepted", "error"], n=0),
  H("TotalCut", "bases 0-1 cut at every byte, 1 arbitrary byte", ["accepted", "error"], n=1, lo=0, hi=2),
  H("TotalDeep", "25 constructs nested or repeated up to 70 times", ["accepted", "error"]),
  H("Tokens", "tokenizer, all texts of at most 2 bytes", ["token", "end", "error"], n=2),
  H("TokensIn", "tokenizer, 1 arbitrary byte in each frame", ["token", "end", "error"], n=1),
  H("TriviaOnly", "texts of white space and comments only, comment bodies of 2 arbitrary bytes", n=2),
  H("TotalIn", "2 arbitrary bytes in each frame", ["accepted", "error"], n=2, max_s=200),
  H("Decls", "declaration lists with equal and different names", v=2, names=3), H("TokensIn", "tokenizer, 2 arbitrary bytes in each frame", n=2), H("Tokens", "tokenizer, all texts of at most 3 bytes", n=3)],
 [H("TotalBytes", "all texts of at most 3 bytes", ["accepted", "error"], n=3, max_s=900),
  H("TotalBytes", "all texts of 4 bytes", ["accepted", "error"], n=4, upto=0, max_s=3400),
  H("TotalIn", "3 arbitrary bytes in 12 frames", ["accepted", "error"], n=3, lo=0, hi=12, max_s=3400),
  H("TotalCut", "bases cut at every byte, 1 arbitrary byte", ["accepted", "error"], n=1, max_s=1800),
  H("TotalDeep", "25 constructs nested or repeated up to 260 times", d=8),
  H("Tokens", "tokenizer, all texts of 4 bytes", n=4, upto=0, max_s=1800),
  H("TokensIn", "tokenizer, 3 arbitrary bytes in each frame", n=3, max_s=1800),
  H("TriviaOnly", "", n=2, pieces=3), H("TriviaOnly", "", n=4, pieces=1)],
 "texts up to 2 (tokenizer 3; thorough 4) arbitrary bytes; 2 (3) arbitrary bytes inside 53 frames; 14 base programs cut at every byte, with an arbitrary byte at the cut; nesting up to 70 (260)",
 "longer arbitrary texts; nesting beyond the stated depth")
check("C02",
 [H("Trivia", "one piece of trivia with 1 arbitrary byte of comment text in every gap of 14 programs", ["compared"], n=1),
  H("Trivia", "two pieces", ["compared"], n=1, pieces=2, lo=0, hi=1),
  H("Trivia", "comment text of 3 bytes", ["compared"], n=3, lo=10, hi=11),
  H("Tight", "white space removed wherever tokens may touch", ["compared"]),
  H("Tight", "the same after one token edit", ["compared"], m=1, lo=0, hi=3),
  H("TriviaStr", "text that looks like trivia inside a string literal", n=4),
  H("TriviaOnly", "", n=2), H("TriviaTok", "a piece of trivia between every two of 61 tokens, tokenizer", ["compared"], n=1),
  H("TriviaMany", "one of 10 pieces of trivia up to 1025 times in every gap of 2 programs", ["compared"], lo=0, hi=1), H("TriviaMany", "", ["compared"], lo=10, hi=11, steps=100_000_000)],
 [H("TriviaTok", "two pieces", ["compared"], n=1, pieces=2, max_s=1800), H("Trivia", "", ["compared"], n=2, max_s=1800), H("Trivia", "", ["compared"], n=1, pieces=2, lo=0, hi=14, max_s=2400),
  H("Tight", "", ["compared"], m=1, max_s=1800), H("Trivia", "after one token edit", ["compared"], n=1, m=1, lo=0, hi=2, max_s=1200),
  H("TriviaStr", "", n=6), H("TriviaOnly", "", n=2, pieces=3)],
 "14 base programs (all statement kinds), one or two pieces of trivia per text with up to 3 arbitrary bytes of comment text, every gap; one of 10 pieces repeated up to 1025 times in every gap of 2 programs",
 "several different inserted pieces at once; comment texts longer than stated")
check("C03",
 [H("KwCase", "every reserved word and directive, any case of every window of 3 letters", ["accepted"]),
  H("KwToken", "the same at the tokenizer, and with a letter appended", ["compared"]),
  H("KwNear", "a character inserted, replaced or removed at 4 positions of every word", ["accepted"]),
  H("Ident", "words of 2 arbitrary characters of one or two bytes in four name positions", ["accepted"], n=2, wide=1), H("Ident", "any three-byte character in a word", ["accepted"], n=1, wide=2),
  H("AfterDot", "every word after a dot, every sixth after that", ["accepted"], step=6)],
 [H("KwCase", "windows of 6 letters", ["accepted"], win=6, max_s=900), H("KwToken", "windows of 8 letters", ["compared"], win=8, max_s=900),
  H("KwNear", "every position", ["accepted"], all=1, max_s=900), H("Ident", "3 characters", ["accepted"], n=3, max_s=1800),
  H("Ident", "any three-byte characters", ["accepted"], n=1, wide=2, max_s=900), H("Ident", "any two-byte characters", ["accepted"], n=2, wide=1, max_s=900), H("AfterDot", "every pair of words", ["accepted"], step=1, max_s=900)],
 "all 36 reserved words and 5 directives; letter-case masks over every window of 3 (6-8) letters with the rest lower or upper; one character edited; names of 2 (3) arbitrary ASCII or Cyrillic characters",
 "case masks mixing more letters at once; longer arbitrary names; letters outside the two-byte range")
check("C04",
 [H("LitStr", "4 arbitrary characters of 1-4 bytes, quotes and line feeds excluded", ["plain"], n=4, plain=1),
  H("LitStr", "2 arbitrary ASCII characters", ["accepted"], n=2, max=1), H("LitStr", "3 arbitrary ASCII characters", ["accepted"], n=3, max=1, slot=0),
  H("LitFrag", "2 fragments", ["accepted"], n=2), H("LitFrag", "3 fragments", ["accepted"], n=3), H("LitFrag", "a fragment and an arbitrary character", ["accepted"], n=1, sym=1),
  H("LitNum", "a digit and an arbitrary character", ["accepted"], n=1), H("LitNum", "4 characters of digits and points", ["accepted"], n=3, kind=1),
  H("LitNumLong", "long numbers, one arbitrary digit", ["accepted"], slot=0),
  H("LitDate", "2 arbitrary digits anywhere in 6 dates of 3 lengths", ["date", "not a date"], win=2),
  H("LitDateSep", "an arbitrary character inside a date", ["date", "not a date"], n=1), H("LitDateLen", "0-17 digits", ["date", "not a date"]), H("LitConst", ""),
  H("Combo", "numbers and dates at the edges of their ranges", ["accepted"], fam=21)],
 [H("LitStr", "", ["plain"], n=6, plain=1), H("LitStr", "", ["accepted"], n=4, max=1, slot=0, max_s=900), H("LitStr", "", ["accepted"], n=3, max=2, slot=0, max_s=900),
  H("LitFrag", "", ["accepted"], n=4, slot=0, max_s=1200), H("LitFrag", "", ["accepted"], n=2, sym=1, slot=0, max_s=900),
  H("LitNum", "", ["accepted"], n=2, slot=0, max_s=900), H("LitNum", "", ["accepted"], n=4, kind=2, slot=0, max_s=900), H("LitNum", "", ["accepted"], n=4, kind=1, slot=0, max_s=900),
  H("LitNumLong", "", ["accepted"]), H("LitDate", "", ["date", "not a date"], win=3, max_s=900), H("LitDateSep", "", ["date", "not a date"], n=2, max_s=900), H("LitDateLen", ""), H("LitConst", "")],
 "strings of up to 4 (6) arbitrary characters or 3 (4) fragments; numbers of up to 4 (5) arbitrary characters and 30 digits with one arbitrary; dates with 2 (3) arbitrary adjacent digits; three places a literal may stand",
 "longer literals; invalid UTF-8 inside a string; line feeds inside a date; the all-zero date with another number of digits",
 ["strconv.ParseFloat gives the nearest double; time.Parse gives the calendar"])
check("C05",
 [H("Tree", "statements in blocks, 3 deviations", ["compared"], fam=0, v=3), H("Tree", "whole modules, 2 deviations", ["compared"], fam=3, v=2), H("Tree", "declarations", ["compared"], fam=2, v=2),
  H("Tree", "an expression in every place", ["compared"], fam=4, v=2), H("Tree", "blocks nested three deep, 2 deviations", ["compared"], fam=0, v=2, depth=3),
  H("Combo", "every list of up to 2 of 23 statements in 11 blocks", ["accepted"], fam=13), H("Combo", "the same with equal names and exits", ["accepted"], fam=13, eq=1), H("Combo", "every if with up to 3 else-if branches and 5 kinds of body", ["accepted"], fam=14),
  H("Combo", "blocks nested up to 6 deep", ["accepted"], fam=19, n=6), H("Combo", "one thing up to 270 times", ["accepted"], fam=20, cnt=12, steps=200_000_000)],
 [H("Combo", "3 statements", ["accepted"], fam=13, n=3, max_s=2400), H("Combo", "4 else-if branches", ["accepted"], fam=14, n=4), H("Tree", "", ["compared"], fam=0, v=4, max_s=2400, sym=0), H("Tree", "", ["compared"], fam=3, v=3, max_s=1200), H("Tree", "", ["compared"], fam=0, v=3, depth=3, max_s=1800), H("Tree", "", ["compared"], fam=4, v=3, max_s=900),
  H("Combo", "blocks nested up to 12 deep", ["accepted"], fam=19, n=12, max_s=900)],
 "programs at most 3 (4) deviations from the simplest one of the family: number and kind of statements, stray semicolons, branches, nesting depth 2 (3)",
 "programs further from the simplest ones; deeper nesting")
check("C06",
 [H("Exprs", "expressions, 3 deviations", ["compared"], fam=1, v=3), H("Exprs", "an expression in every place", ["compared"], fam=4, v=2), H("Exprs", "depth 3", ["compared"], fam=1, v=2, depth=3), H("Exprs", "depth 4", ["compared"], fam=1, v=2, depth=4),
  H("Exprs", "38 operator and operand forms around 39 expressions in 24 places", ["compared"], fam=10), H("Combo", "two forms around 13 expressions", ["accepted"], fam=11, step=3), H("Exprs", "every argument list of up to 4 arguments, omitted ones included, in 9 places", ["compared"], fam=12),
  H("Exprs", "one thing up to 270 times", ["compared"], fam=20, cnt=12, steps=200_000_000)],
 [H("Exprs", "two forms around 39 expressions", ["compared"], fam=11, slots=2, max_s=900), H("Exprs", "6 arguments", ["compared"], fam=12, n=6, max_s=900), H("Exprs", "", ["compared"], fam=1, v=4, max_s=3000), H("Exprs", "", ["compared"], fam=4, v=3, max_s=900), H("Exprs", "", ["compared"], fam=1, v=3, depth=3, max_s=2400)],
 "expressions at most 3 (4) deviations from the simplest: operators (13), operand kinds, unary marks, parentheses, arguments, omitted arguments",
 "larger expressions")
check("C07",
 [H("Place", "two openers, one deep", ["accepted"], depth=1, v=1), H("Place", "nesting two deep", ["accepted"], depth=2, v=1), H("Combo", "every kind of value returned and thrown", ["accepted", "rejected: return with a value outside a function", "rejected: throw without argument outside a handler"], fam=10),
  H("Combo", "blocks nested up to 5 deep", ["accepted", "rejected: break outside a loop", "rejected: continue outside a loop", "rejected: return with a value outside a function", "rejected: throw without argument outside a handler"], fam=19, n=5), H("Combo", "blocks nested 9 deep", ["accepted"], fam=19, min=9, n=1, sym=0),
  H("Combo", "one thing up to 270 times, blocks nested up to 80 deep", ["accepted", "rejected: break outside a loop", "rejected: throw without argument outside a handler"], fam=20, cnt=12, steps=200_000_000)],
 [H("Place", "", ["accepted"], depth=2, v=2, max_s=2400), H("Place", "", ["accepted"], depth=3, v=1, max_s=2400),
  H("Combo", "blocks nested up to 14 deep", ["accepted"], fam=19, n=14, max_s=1200)],
 "every placement under nestings up to 2 (3) blocks deep, preceded by up to one (two) closed constructs; one kind of block nested up to 80 deep",
 "deeper nesting and longer histories")
check("C08",
 [H("Decls", "", ["accepted"], v=2, names=3), H("Decls", "", ["accepted"], v=3, names=4), H("DeclOrder", "sequences of 4 declarations and statements", n=4), H("Directive", "5 directives, any case of every window of 4 letters, before a variable, a procedure and a function", ["accepted"], win=4), H("Tree", "", ["compared"], fam=2, v=3), H("Combo", "every list of up to 3 parameters with 8 forms, with directive, export and local variables", ["accepted"], fam=15),
  H("Combo", "one thing up to 270 times", ["accepted"], fam=20, cnt=12, steps=200_000_000)],
 [H("Combo", "4 parameters", ["accepted"], fam=15, n=4, max_s=1200), H("Decls", "", ["accepted"], v=4, names=4, max_s=2400), H("DeclOrder", "", n=5, max_s=1200), H("Tree", "", ["compared"], fam=2, v=4, max_s=2400), H("Tree", "", ["compared"], fam=3, v=3, max_s=1200)],
 "modules at most 3 (4) deviations from the simplest: declarations, parameters, defaults, directives, exports, local variables, equal and different names; every order of 4 (5) module items",
 "more declarations; names that differ only in letter case")
check("C09",
 [H("Print", "blocks, 6 configurations", ["compared"], fam=0, v=2), H("Print", "expressions", ["compared"], fam=1, v=2), H("Print", "declarations", ["compared"], fam=2, v=2), H("Print", "modules", ["compared"], fam=3, v=2),
  H("Print", "an expression in every place", ["compared"], fam=4, v=2), H("Print", "expressions, one configuration", ["compared"], fam=1, v=3, conf=1), H("PrintStmt", "statements", ["compared"], fam=0, v=2), H("PrintStmt", "", ["compared"], fam=4, v=2),
  H("Print", "expressions in every place", ["compared"], fam=10, conf=1, sym=0), H("Print", "arguments", ["compared"], fam=12, conf=1), H("Print", "statement lists", ["compared"], fam=13, conf=1), H("Print", "branches", ["compared"], fam=14, conf=1, n=2), H("Print", "parameters", ["compared"], fam=15, conf=1, n=2),
  H("Print", "one thing up to 270 times", ["compared"], fam=20, conf=0, cnt=12, steps=200_000_000), H("Print", "one thing up to 270 times", ["compared"], fam=20, conf=1, cnt=12, steps=200_000_000), H("Print", "blocks nested up to 3 deep", ["compared"], fam=19, n=3, sym=0),
  H("Print", "numbers and dates at the edges of their ranges", ["compared"], fam=21, conf=0)],
 [H("Print", "", ["compared"], fam=0, v=3, conf=0, max_s=1200), H("Print", "", ["compared"], fam=0, v=3, conf=1, max_s=1200), H("Print", "", ["compared"], fam=1, v=3, max_s=1200), H("Print", "", ["compared"], fam=2, v=3, conf=0, max_s=1200),
  H("Print", "", ["compared"], fam=3, v=3, conf=1, max_s=2400), H("Print", "", ["compared"], fam=4, v=3, max_s=1200), H("PrintStmt", "", ["compared"], fam=0, v=3, max_s=1200), H("PrintStmt", "", ["compared"], fam=4, v=3, max_s=1200),
  H("Print", "blocks nested up to 8 deep", ["compared"], fam=19, n=8, sym=0, max_s=1200)],
 "programs at most 2-3 deviations from the simplest of five families, 6 configurations",
 "larger programs; other margins")
check("C10",
 [H("PrintStable", "", ["compared"], fam=0, v=2), H("PrintStable", "", ["compared"], fam=1, v=2), H("PrintStable", "", ["compared"], fam=2, v=2), H("PrintStable", "", ["compared"], fam=3, v=2), H("PrintStable", "", ["compared"], fam=4, v=2), H("PrintStable", "", ["compared"], fam=10, conf=1, sym=0), H("PrintStable", "", ["compared"], fam=13, conf=0), H("PrintStable", "", ["compared"], fam=15, conf=1, n=2), H("PrintStable", "branches", ["compared"], fam=14, conf=1, n=2), H("PrintStable", "arguments", ["compared"], fam=12, conf=1, n=3), H("PrintStable", "equal statements", ["compared"], fam=13, conf=1, eq=1, n=1),
  H("PrintStable", "one thing up to 270 times", ["compared"], fam=20, conf=1, sym=0, cnt=12, steps=200_000_000), H("PrintStable", "blocks nested up to 3 deep", ["compared"], fam=19, n=3, conf=1, sym=0),
  H("PrintStable", "numbers and dates at the edges of their ranges", ["compared"], fam=21, conf=1, sym=0)],
 [H("PrintStable", "", ["compared"], fam=0, v=3, conf=0, max_s=1800), H("PrintStable", "", ["compared"], fam=1, v=3, conf=1, max_s=1800), H("PrintStable", "", ["compared"], fam=2, v=3, conf=1, max_s=2400), H("PrintStable", "", ["compared"], fam=4, v=3, max_s=1800),
  H("PrintStable", "blocks nested up to 8 deep", ["compared"], fam=19, n=8, conf=0, sym=0, max_s=1200), H("PrintStable", "one thing up to 270 times", ["compared"], fam=20, cnt=12, steps=200_000_000)],
 "programs at most 2 (3) deviations from the simplest of five families, 6 configurations against a fixed one, every iteration order of maps with up to the generated number of entries",
 "larger programs; more map entries", ["map iteration order is an arbitrary permutation, chosen afresh at every loop"])
check("C11",
 [H("Walk", "", ["compared"], fam=0, v=2, sym=0), H("Walk", "", ["compared"], fam=3, v=2, sym=0), H("Walk", "", ["compared"], fam=4, v=2, sym=0), H("Walk", "", ["compared"], fam=1, v=2, sym=0), H("Walk", "", ["compared"], fam=2, v=2, sym=0),
  H("WalkReplace", "", fam=0, v=2, sym=0), H("WalkReplace", "", fam=3, v=2, sym=0), H("WalkReplace", "", fam=4, v=2, sym=0), H("Walk", "", ["compared"], fam=0, v=3, sym=0), H("Walk", "", ["compared"], fam=10, sym=0), H("Walk", "", ["compared"], fam=13, sym=0), H("Walk", "", ["compared"], fam=14, n=2, sym=0), H("WalkReplace", "a statement of a block replaced by 11 kinds of statements", ["replaced"], fam=13, n=1, sym=0), H("WalkReplace", "", ["replaced"], fam=14, n=1, sym=0), H("Walk", "equal statements", ["compared"], fam=13, eq=1, sym=0),
  H("Walk", "forms that are not 1C", ["not 1C"], fam=16, any=1, sym=0), H("Walk", "", ["not 1C"], fam=17, any=1, sym=0), H("WalkReplace", "", ["replaced"], fam=17, any=1, sym=0),
  H("Walk", "blocks nested up to 4 deep", ["compared"], fam=19, n=4, sym=0), H("Walk", "one thing up to 270 times", ["compared"], fam=20, sym=0, cnt=12, steps=200_000_000),
  H("Walk", "every block walked on its own", ["compared"], fam=2, v=1, parts=1, sym=0), H("Walk", "", ["compared"], fam=13, n=1, sym=0, parts=1), H("Walk", "", ["compared"], fam=14, n=1, sym=0, parts=1), H("Walk", "", ["not 1C"], fam=17, any=1, parts=1, sym=0), H("Walk", "", ["compared"], fam=19, n=2, sym=0, parts=1)],
 [H("Walk", "", ["compared"], fam=0, v=3, sym=0, max_s=900), H("Walk", "", ["compared"], fam=3, v=3, sym=0, max_s=1800), H("Walk", "", ["compared"], fam=4, v=3, sym=0, max_s=900), H("Walk", "", ["compared"], fam=1, v=3, sym=0, max_s=900),
  H("WalkReplace", "", fam=0, v=3, sym=0, max_s=1800), H("WalkReplace", "", fam=3, v=3, sym=0, max_s=1800),
  H("Walk", "blocks nested up to 9 deep", ["compared"], fam=19, n=9, sym=0, max_s=1200), H("Walk", "every block walked on its own", ["compared"], fam=13, sym=0, parts=1, max_s=900), H("Walk", "", ["compared"], fam=19, n=3, sym=0, parts=1, max_s=900)],
 "trees of programs at most 2-3 deviations from the simplest of five families", "larger trees")
check("C12",
 [H("Indep", "every pair of 58 programs, failing ones included", ["compared", "accepted"]), H("IndepSeq", "two other parses between", ["compared"], step=10),
  H("IndepSym", "1 arbitrary byte in each of 53 frames before 5 programs", ["compared"], n=1), H("IndepSymP", "the text with the arbitrary byte parsed again after 9 programs", ["compared"], n=1), H("IndepTok", "two tokenizers in turns, every order of 4 steps", ["compared"], n=4), H("IndepName", "two long names or strings with 2 arbitrary letters each", ["compared"], n=2),
  H("Conc", "every pair of 58 programs parsed at the same time", ["compared"], step=1, sym=0), H("Conc", "the same with an arbitrary byte at the end of the first text", ["compared"], step=9, sym=1), H("Conc", "every pair with nothing parsed before", ["compared"], step=1, sym=0, cold=1)],
 [H("Conc", "", ["compared"], step=1, sym=1, max_s=900), H("Conc", "", ["compared"], step=3, sym=1, cold=1, max_s=600), H("Indep", "", ["compared"]), H("IndepSeq", "", ["compared"], step=2, max_s=2400), H("IndepSym", "", ["compared"], n=2, lo=0, hi=20, max_s=1200), H("IndepSymP", "", ["compared"], n=2, lo=20, hi=53, max_s=1200), H("IndepTok", "", ["compared"], n=7, max_s=900)],
 "histories of two and three parses (with printing, exporting and walking) over 72 programs; one arbitrary byte in 53 frames; parses inside a walk callback; tokenizers interleaved step by step; two parsers at work at the same time: no write to memory both can reach without a lock, and one preemption at every synchronised operation (lock release, atomic write, sync.Once, sync.Pool) on such memory",
 "longer histories; more than two parsers at once; more than one preemption")
check("C13",
 [H("ErrPos", "one token inserted, deleted, replaced or swapped in 14 programs", ["unexpected", "early end"], v=0), H("ErrWin", "unusual tokens after every prefix", ["unexpected", "early end"], v=0),
  H("ErrWin", "with an unusual gap", ["unexpected"], v=1, lo=0, hi=1), H("ErrWin", "with an unusual gap", ["unexpected"], v=1, lo=6, hi=7),
  H("ErrPos", "one token edited and one unusual gap", ["unexpected"], v=1, lo=0, hi=1), H("ErrWin", "every gap unusual, arbitrary first character", ["unexpected"], v=0, style=1, lo=3, hi=4), H("ErrChar", "an arbitrary character of 1-4 bytes in strings, comments and names before the token", ["unexpected", "early end"], n=1),
  H("ErrGrow", "every sequence of up to 2 of 48 tokens in 24 contexts up to the first that cannot follow", ["unexpected", "early end"], n=2), H("ErrGrow", "up to 4 tokens from the start of a text", ["unexpected", "early end"], n=4, hi=1),
  H("ErrFar", "17 pieces repeated up to 1025 times before 7 kinds of offending tokens", ["unexpected", "early end"], counts=16), H("ErrLong", "11 kinds of offending tokens of up to 1025 pieces in 5 places", ["unexpected"], counts=15)],
 [H("ErrGrow", "up to 3 tokens", ["unexpected", "early end"], n=3, max_s=900), H("ErrGrow", "with an unusual gap", ["unexpected"], n=1, v=1, max_s=900), H("ErrPos", "", ["unexpected"], v=1, lo=0, hi=2, max_s=2400), H("ErrWin", "", ["unexpected"], v=1, max_s=2400), H("ErrWin", "", ["unexpected"], v=0, style=1, max_s=1800), H("ErrChar", "two characters of up to 3 bytes", ["unexpected"], n=2, max=3, max_s=1500)],
 "every single-token edit of 14 programs, every prefix of them followed by 11 unusual tokens, one unusual gap (9 kinds); every sequence of 2 (3) tokens in 24 contexts, and of 4 from the start of a text, up to the first token that cannot follow", "several edits at once; messages of lexical errors")
check("C15",
 [H("JSON", "", ["compared"], fam=0, v=2), H("JSON", "", ["compared"], fam=1, v=2), H("JSON", "", ["compared"], fam=2, v=2), H("JSON", "", ["compared"], fam=3, v=2), H("JSON", "", ["compared"], fam=4, v=2),
  H("JSON", "", ["compared"], fam=0, v=3), H("JSONStr", "string literals of 3 arbitrary bytes", n=3), H("JSON", "", ["compared"], fam=10, sym=0), H("JSON", "", ["compared"], fam=12), H("JSON", "", ["compared"], fam=13), H("JSON", "", ["compared"], fam=14, n=2), H("JSON", "", ["compared"], fam=15, n=2), H("JSON", "forms that are not 1C", ["not 1C"], fam=16, any=1, sym=0), H("JSON", "", ["not 1C"], fam=17, any=1), H("JSON", "equal statements", ["compared"], fam=13, eq=1, n=1),
  H("JSON", "blocks nested up to 3 deep", ["compared"], fam=19, n=3, sym=0), H("JSON", "one thing up to 270 times", ["compared"], fam=20, cnt=12, steps=200_000_000),
  H("JSON", "numbers and dates at the edges of their ranges", ["compared"], fam=21)],
 [H("JSON", "", ["compared"], fam=0, v=3, max_s=1200), H("JSON", "", ["compared"], fam=1, v=3, max_s=1200), H("JSON", "", ["compared"], fam=2, v=3, max_s=1200), H("JSON", "", ["compared"], fam=3, v=3, max_s=2400), H("JSON", "", ["compared"], fam=4, v=3, max_s=1200), H("JSONStr", "", n=4),
  H("JSON", "blocks nested up to 9 deep", ["compared"], fam=19, n=9, max_s=1200)],
 "programs at most 2-3 deviations from the simplest of five families; strings of 3 (4) arbitrary bytes", "larger programs",
 ["encoding/json is executed by a model of its documented behaviour (struct tags, escaping, sorted map keys), compared with the native package on sampled paths"])
check("C16",
 [H("Accept", "every sequence of 2 tokens out of 61", n=2), H("Mutate", "every single-token edit of 14 programs", ["accepted"], m=1), H("Window", "every pair of tokens in 24 contexts", ["accepted"], n=2),
  H("Bases", "the base programs are accepted", ["accepted"]), H("Tree", "generated programs are accepted", ["compared"], fam=3, v=2), H("Accept", "every sequence of 3 tokens", n=3),
  H("ByteEdit", "an arbitrary ASCII or Cyrillic character inserted at or replacing every character of a program, or the character removed", ["accepted"], lo=0, hi=1), H("ByteEdit", "", ["accepted"], lo=10, hi=11),
  H("CharGap", "an arbitrary character of 1-2 bytes between any two tokens of a program", ["accepted"], wide=1, lo=2, hi=3), H("CharGap", "an arbitrary character of 3 bytes in two places of another", ["accepted"], wide=2, lo=0, hi=1, gaps=2),
  H("Combo", "blocks nested up to 4 deep", ["accepted"], fam=19, n=4), H("Combo", "one thing up to 270 times", ["accepted"], fam=20, cnt=12, steps=200_000_000), H("Combo", "38 expressions around 38 in 24 places", ["accepted"], fam=10),
  H("Grow", "every sequence of up to 3 of 48 tokens in 24 contexts, as far as a program can begin with it", ["accepted"], n=3), H("Grow", "every such sequence of up to 5 tokens from the start of a text", ["accepted"], n=5, hi=1, max_s=200)],
 [H("Grow", "up to 4 tokens", ["accepted"], n=4, max_s=1800), H("Grow", "up to 6 tokens from the start of a text", ["accepted"], n=6, hi=1, max_s=1800), H("Mutate", "every two edits of a program", ["accepted"], m=2, lo=0, hi=1, max_s=900), H("Mutate", "", ["accepted"], m=2, lo=3, hi=4, max_s=3000), H("Window", "", ["accepted"], n=3, lo=0, hi=24, max_s=3400), H("ByteEdit", "", ["accepted"], max_s=1200), H("CharGap", "", ["accepted"], wide=1, max_s=900), H("CharGap", "", ["accepted"], wide=2, lo=0, hi=1, max_s=900), H("CharGap", "", ["accepted"], wide=3, gaps=1, lo=0, hi=1, max_s=3000)],
 "token sequences: all of length 3, and of up to 5 (6) tokens as far as a program can begin with them; 3 (4) such tokens in 24 contexts; all pairs (triples) of tokens in 24 contexts; all single (some double) edits of 14 programs", "longer arbitrary sequences; forms DESIGN.md lists as left open")

check("C17",
 [H("PrintFix", "blocks, 6 configurations", ["compared"], fam=0, v=2), H("PrintFix", "expressions", ["compared"], fam=1, v=2), H("PrintFix", "declarations", ["compared"], fam=2, v=2), H("PrintFix", "modules", ["compared"], fam=3, v=2),
  H("PrintFix", "an expression in every place", ["compared"], fam=4, v=2), H("PrintFix", "38 expressions around 38 in 24 places", ["compared"], fam=10, conf=0, sym=0), H("PrintFix", "argument lists", ["compared"], fam=12, conf=1), H("PrintFix", "statement lists", ["compared"], fam=13, conf=0), H("PrintFix", "one line", ["compared"], fam=13, conf=1, n=1),
  H("PrintFix", "branches", ["compared"], fam=14, n=2), H("PrintFix", "parameters", ["compared"], fam=15, n=2), H("PrintFix", "string literals of 3 arbitrary characters", ["compared"], fam=18, n=3),
  H("PrintFix", "one thing up to 270 times", ["compared"], fam=20, cnt=12, steps=200_000_000), H("PrintFix", "blocks nested up to 3 deep", ["compared"], fam=19, n=3, conf=0, sym=0),
  H("PrintFix", "numbers and dates at the edges of their ranges", ["compared"], fam=21, conf=0)],
 [H("PrintFix", "", ["compared"], fam=0, v=3, max_s=1200), H("PrintFix", "", ["compared"], fam=1, v=3, max_s=1200), H("PrintFix", "", ["compared"], fam=2, v=3, conf=0, max_s=1200), H("PrintFix", "", ["compared"], fam=3, v=3, conf=0, max_s=2400), H("PrintFix", "", ["compared"], fam=4, v=3, max_s=1200),
  H("PrintFix", "", ["compared"], fam=10, max_s=900), H("PrintFix", "", ["compared"], fam=13, max_s=900), H("PrintFix", "", ["compared"], fam=11, slots=2, conf=0, sym=0, max_s=1200), H("PrintFix", "", ["compared"], fam=18, n=5, max_s=900),
  H("PrintFix", "blocks nested up to 8 deep", ["compared"], fam=19, n=8, sym=0, max_s=1800)],
 "programs at most 2 (3) deviations from the simplest of five families and the complete products of expressions, arguments, statements, branches and parameters, 6 configurations",
 "larger programs; other margins; forms that are not 1C")
check("C18",
 [H("ConsumeBytes", "all texts of at most 2 bytes", ["accepted", "error"], n=2), H("ConsumeIn", "2 arbitrary bytes in each of 53 frames", ["accepted", "error"], n=2, max_s=240), H("ConsumeTok", "every single-token edit of 14 programs", ["accepted", "error"]),
  H("ConsumeTok", "the same cut short", ["accepted", "error"], cut=1, hi=1), H("ConsumeTok", "the same cut short", ["accepted", "error"], cut=1, lo=9, hi=10), H("Consume", "forms that are not 1C", ["accepted", "error"], fam=16, sym=0), H("Consume", "statements that are not 1C", ["accepted", "error"], fam=17, sym=0),
  H("Consume", "expressions in every place", ["accepted", "error"], fam=10, sym=0), H("Consume", "argument lists", ["accepted"], fam=12), H("Consume", "statement lists", ["accepted"], fam=13, sym=0), H("Consume", "branches", ["accepted"], fam=14, n=2), H("Consume", "parameters", ["accepted"], fam=15, n=2),
  H("Consume", "declarations", ["accepted"], fam=2), H("Consume", "modules", ["accepted"], fam=3),
  H("Consume", "one thing up to 270 times", ["accepted"], fam=20, cnt=12, steps=200_000_000), H("Consume", "blocks nested up to 3 deep", ["accepted", "error"], fam=19, n=3, sym=0),
  H("ConsumeGrow", "every sequence of up to 2 of 48 tokens in 24 contexts up to the first that cannot follow", ["accepted", "error"], n=2), H("ConsumeGrow", "up to 3 tokens from the start of a text", ["accepted", "error"], n=3, hi=1),
  H("Consume", "numbers and dates at the edges of their ranges", ["accepted"], fam=21)],
 [H("ConsumeGrow", "up to 3 tokens", ["accepted", "error"], n=3, max_s=1800), H("ConsumeBytes", "", ["accepted", "error"], n=3, max_s=1200), H("ConsumeIn", "3 arbitrary bytes", ["accepted", "error"], n=3, lo=0, hi=12, max_s=3000), H("ConsumeTok", "every two edits", ["accepted", "error"], m=2, lo=0, hi=1, max_s=900), H("ConsumeTok", "", ["accepted", "error"], cut=1, max_s=1800), H("Consume", "", ["accepted"], fam=3, v=3, max_s=2400),
  H("Consume", "blocks nested up to 8 deep", ["accepted", "error"], fam=19, n=8, sym=0, max_s=1200)],
 "texts of 2 (3) arbitrary bytes; 2 (3) arbitrary bytes in 53 frames; single (some double) token edits of 14 programs, cut short or not; complete products over forms of the language and forms only this parser accepts",
 "longer arbitrary texts", ["encoding/json is executed by a model of its documented behaviour, compared with the native package on sampled paths"])
check("C19",
 [H("Layout", "blocks, 5 margins", ["compared"], fam=0, v=2), H("Layout", "three deep", ["compared"], fam=0, v=2, depth=3), H("Layout", "expressions", ["compared"], fam=1, v=2), H("Layout", "declarations", ["compared"], fam=2, v=2), H("Layout", "modules", ["compared"], fam=3, v=2), H("Layout", "", ["compared"], fam=4, v=2),
  H("Layout", "38 expressions around 38 in 24 places", ["compared"], fam=10, sym=0), H("Layout", "argument lists", ["compared"], fam=12, n=3), H("Layout", "statement lists", ["compared"], fam=13, sym=0), H("Layout", "branches", ["compared"], fam=14, n=2), H("Layout", "parameters", ["compared"], fam=15, n=2),
  H("Layout", "one thing up to 130 times", ["compared"], fam=20, sym=0, cnt=11, steps=200_000_000), H("Layout", "blocks nested up to 3 deep", ["compared"], fam=19, n=3, sym=0, margins=2), H("Layout", "blocks nested 9 deep", ["compared"], fam=19, n=1, min=9, sym=0, margins=2)],
 [H("Layout", "", ["compared"], fam=0, v=3, max_s=1200), H("Layout", "", ["compared"], fam=2, v=3, max_s=1800), H("Layout", "", ["compared"], fam=3, v=3, max_s=3000), H("Layout", "", ["compared"], fam=13, eq=1, sym=0), H("Layout", "", ["compared"], fam=0, v=3, depth=3, max_s=1800),
  H("Layout", "blocks nested up to 9 deep", ["compared"], fam=19, n=9, sym=0, max_s=1800)],
 "programs at most 2 (3) deviations from the simplest of five families and the complete products of statements, branches, parameters and expressions; margins 0, 1, 2, 4, 7",
 "larger programs; other margins; forms that are not 1C")
check("C20",
 [H("Stream", "all texts of at most 2 bytes", ["token", "end", "malformed"], n=2), H("Stream", "all texts of 3 bytes", ["token", "end", "malformed"], n=3, upto=0, max_s=240), H("StreamIn", "2 arbitrary bytes in each of 53 frames", ["token", "end", "malformed"], n=2, max_s=200),
  H("StreamBase", "14 programs from and up to every byte, with an arbitrary byte there", ["token", "end", "malformed"], n=1, max_s=240),
  H("StreamEdit", "2 arbitrary bytes inserted anywhere into 2 dense texts, or in place of a byte", ["token", "end", "malformed"], n=2, max_s=300), H("StreamEdit", "unusual characters there", ["token", "end", "malformed"], wide=1), H("StreamChar", "an arbitrary character of 1-4 bytes in strings and comments", ["token", "end", "malformed"], hi=12), H("StreamChar", "of 1-2 bytes in words", ["token", "end", "malformed"], lo=12, max=2),
  H("StreamPair", "every two of 61 tokens next to each other, with a space or with a piece of trivia between", ["token", "end", "malformed"], n=1)],
 [H("StreamPair", "", ["token", "end", "malformed"], n=2, max_s=900), H("Stream", "all texts of 4 bytes", ["token", "end", "malformed"], n=4, upto=0, max_s=3400), H("StreamIn", "3 arbitrary bytes", ["token", "end", "malformed"], n=3, lo=0, hi=20, max_s=3400), H("StreamBase", "", ["token", "end", "malformed"], n=2, lo=0, hi=2, max_s=1800)],
 "texts of up to 3 (4) arbitrary bytes; 2 (3) arbitrary bytes in 53 frames; 14 programs from or up to every byte, an arbitrary byte before or after; 2 arbitrary bytes anywhere in two dense texts; an arbitrary character of 1-4 bytes in strings and comments",
 "longer arbitrary texts; what follows the first malformed token; a line feed inside a date literal; a # line inside a string literal")
check("C21",
 [H("Edit", "every single change of 14 programs, two configurations", ["changed"], max_s=240), H("Edit", "parameters and local variables", ["changed"], fam=15, n=1, sym=0, step=20, line=0), H("Edit", "declarations", ["changed"], fam=2, v=1, sym=1, step=20, line=0)],
 [H("Edit", "statements in blocks", ["changed"], fam=13, n=1, sym=0, max_s=1800), H("Edit", "branches", ["changed"], fam=14, n=1, sym=0, max_s=1800), H("Edit", "expressions in every place", ["changed"], fam=10, sym=0, line=0, step=3, max_s=2400), H("Edit", "", ["changed"], fam=15, n=1, sym=0, max_s=900), H("Edit", "", ["changed"], fam=19, n=2, sym=0, step=5, max_s=1800)],
 "14 programs with every statement kind, and small declarations: one change at every place with 14 statements and 15 expressions to put there; margin 4 and one line",
 "several changes before a print; nodes no parse produces")
check("C22",
 [H("NodeTree", "38 expressions around 38 in 24 places", ["compared"], fam=10), H("NodeTree", "argument lists", ["compared"], fam=12), H("NodeTree", "one thing up to 270 times", ["compared"], fam=20, cnt=12, steps=200_000_000), H("NodeTree", "expressions in every place", ["compared"], fam=4, v=2), H("NodeTree", "modules", ["compared"], fam=3, v=2), H("NodeTree", "parameters", ["compared"], fam=15, n=2), H("NodeTree", "deep expressions", ["compared"], fam=1, v=2, depth=3),
  H("NodeMark", "38 expressions around 38", ["marked"]), H("NodeMade", "5 number types, 13 operations, a function", ["made"], max=100), H("NodeAppend", "statements, lists, procedures and variables put at the end of modules", ["appended"], fam=3, v=1), H("NodeAppend", "the same for statement lists", ["appended"], fam=13, n=1, sym=0), H("NodeAppend", "the same for declarations", ["appended"], fam=2, v=1), H("Digits", "every text of up to 6 bytes", ["compared"], n=6),
  H("NodeTree", "numbers and dates at the edges of their ranges", ["compared"], fam=21)],
 [H("NodeTree", "", ["compared"], fam=11, slots=2, max_s=900), H("NodeTree", "", ["compared"], fam=0, v=3, max_s=900), H("NodeTree", "", ["compared"], fam=2, v=3, max_s=900), H("NodeMade", "", ["made"], max=1000, max_s=900), H("NodeAppend", "", ["appended"], fam=2, v=2, max_s=900), H("NodeAppend", "", ["appended"], fam=3, v=2, max_s=1800), H("Digits", "", ["compared"], n=9, max_s=600)],
 "programs at most 2 (3) deviations from the simplest and the complete products of expressions, arguments and parameters; 38 expressions around 38; numbers -100..100 (-1000..1000) scaled in five types; texts of 6 (9) bytes",
 "larger programs; marking a node twice; other values")
check("C23",
 [H("Shared", "14 programs, every two of 6 uses", ["compared"], fam=-1), H("Shared", "the same used before", ["compared"], fam=-1, cold=0), H("Shared", "statement lists", ["compared"], fam=13, n=1, sym=0), H("Shared", "branches", ["compared"], fam=14, n=1, sym=0), H("Shared", "parameters and local variables", ["compared"], fam=15, n=1, sym=0), H("Shared", "argument lists", ["compared"], fam=12, n=2), H("Shared", "expressions", ["compared"], fam=1, v=2), H("Shared", "declarations", ["compared"], fam=2, v=1), H("Shared", "modules", ["compared"], fam=3, v=1), H("Shared", "expressions in every place", ["compared"], fam=4, v=2), H("Shared", "one thing up to 65 times, the same use twice", ["compared"], fam=20, sym=0, pair=1, steps=100_000_000)],
 [H("Shared", "", ["compared"], fam=10, sym=0, max_s=3000), H("Shared", "", ["compared"], fam=0, v=2, max_s=900), H("Shared", "", ["compared"], fam=2, v=2, max_s=1800), H("Shared", "", ["compared"], fam=3, v=2, max_s=1800), H("Shared", "", ["compared"], fam=13, n=2, eq=1, sym=0, pair=1, max_s=1800), H("Shared", "", ["compared"], fam=19, n=3, sym=0, pair=1, max_s=900), H("Shared", "", ["compared"], fam=17, sym=0, max_s=900)],
 "14 programs and the families at 1 (2) deviations; two goroutines, six uses (two prints, statements, export, walk, reading the fields)",
 "larger programs; three goroutines; changing the tree at the same time", ["freedom from unsynchronised writes to memory both can reach makes every interleaving equal to one after the other; synchronised ones are preempted once at each operation"])

TECH = "symbolic execution of the Go code (own go/ssa executor) with z3 deciding path feasibility and assertions, differential against a reference; counterexamples replayed natively"
NOTE = {
 "C14": "Within the stated lengths CBMC shows memory safety, termination and the result of the real C function for every byte string, and the Go wrapper is shown to compose with it; trusts CBMC, its tolower model and the cgo contract.",
}
TECHS = {"C14": "CBMC on the C function extracted from the cgo preamble (every byte string up to a length, unwinding assertions), symbolic execution of the Go wrapper; native replay with AddressSanitizer"}

def main():
    with open(ROOT + "/checks.json", "w") as f:
        json.dump(C, f, indent=1, ensure_ascii=False)
        f.write("\n")
    ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl", encoding="utf-8")]
    checks = []
    for i in ids:
        if i != "C14" and i not in C:
            continue
        note = NOTE.get(i) or ("Holds for every input within the bounds: " + C[i]["bounds"] + ". Outside: " + C[i]["outside"] + ". Trusts the executor's Go semantics (validated by native replay of sampled paths) and the reference in /verif/harness/h.")
        checks.append({"property": i, "quick_cmd": "./check.sh " + i + " quick", "thorough_cmd": "./check.sh " + i + " thorough", "technique": TECHS.get(i, TECH), "level": "model_checking",
                       "level_note": note, "evidence_file": "evidence/" + i + ".json"})
    m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: harnesses are laid over /repo's working tree with build overlays. Bounded results only; bounds are in checks.json and in each evidence file."}
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
