#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SL, TM, TT = "src/tokenizer/slice.rs", "src/tokenizer/mod.rs", "src/tokenizer/tokens.rs"
P = []
def prop(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=None, technique=None, note=None, na=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, observe=observe, state=state or [], technique=technique, note=note, na=na, level=level))

ABS = "abstract interpretation of the compiler's MIR in lockstep with a byte-level transducer specification"
NOTE = "Covers every UTF-8 input without a length bound: the exploration of abstract states is run to a fixpoint. Trusts rustc's MIR, the MIR importer, the models of the standard library functions and the specification transducer; what it cannot establish it reports as UNDECIDED, not as a violation."
LEXOBS = ["the token and the number of bytes consumed for one read at a given position and hint"]
LEXWHY = "The tests sample a few dozen short literals; the property quantifies over every UTF-8 text, of any length, after the point of reading."

prop("T01", "Tokens tile the input", "Reading a token from any text consumes exactly the bytes of the token that starts there: at least one byte, never past the end of the text, always ending between two characters, and end of input is reported exactly at the end. Consecutive tokens, whitespace and comments therefore cover the text without gap or overlap.",
     "all UTF-8 texts, all positions, all four combinations of the expression and template hints", LEXWHY, [SL, TM],
     [{"name": "size returned by every reader of a lexeme", "where": SL + " read_next and the functions it calls"}, {"name": "advance of the read position", "where": SL + " next_token"}], LEXOBS, technique=ABS, note=NOTE)
prop("T02", "Punctuators follow longest match", "At every position where a punctuator starts, the longest punctuator of the language that matches the text is produced, with the matching kind and length. No other text produces a punctuator.",
     "all UTF-8 texts and hints", LEXWHY, [SL, TT], [{"name": "dispatch on the first bytes", "where": SL + " read_next"}], LEXOBS, technique=ABS, note=NOTE)
prop("T03", "Comments end where they must", "A single-line comment extends to just before the next line terminator or the end of input; a block comment extends through the first closing mark, whatever lies in between. The comment token reports its kind correctly and never swallows following text.",
     "all UTF-8 texts that contain a comment", LEXWHY, [SL], [{"name": "comment scanning", "where": SL + " read_next, comment readers"}], LEXOBS, technique=ABS, note=NOTE)
prop("T04", "String literals end at their own quote", "A string literal extends through the first unescaped occurrence of the quote that opened it, with escapes and line continuations honoured. Its value is the text between the quotes when that contains no escape.",
     "all UTF-8 texts that start with a quote", LEXWHY, [SL], [{"name": "string scanning", "where": SL + " string readers"}], LEXOBS, technique=ABS, note=NOTE + " The decoded value of strings that contain escapes is not claimed.")
prop("T05", "Template parts are delimited correctly", "A template part extends to the first unescaped backtick or unescaped `${`, starts at a backtick or, when a substitution is being closed, at the closing brace, and is reported as whole, head, middle or tail accordingly.",
     "all UTF-8 texts and hints", LEXWHY, [SL], [{"name": "template scanning", "where": SL + " template readers"}], LEXOBS, technique=ABS, note=NOTE + " The decoded value of templates that contain escapes is not claimed.")
prop("T06", "Regular expressions end at their own slash", "Where an expression may start, a slash that opens no comment starts a regular expression that extends to the first slash outside escapes and character classes plus its flags. Pattern and flags are reported as written.",
     "all UTF-8 texts, with the expression hint set", LEXWHY, [SL], [{"name": "regular expression scanning", "where": SL + " regex reader"}], LEXOBS, technique=ABS, note=NOTE + " Flags other than lower case letters are not claimed.")
prop("T07", "Number literals take the right text", "A number literal extends over exactly the digits, radix prefix, fraction and exponent that the language gives it: decimal with optional fraction and exponent, hexadecimal, octal, binary and leading-dot forms.",
     "all UTF-8 texts that start a number", LEXWHY, [SL], [{"name": "number scanning", "where": SL + " number readers"}], LEXOBS, technique=ABS, note=NOTE)
prop("T08", "Number literals have the right value", "The value of a number literal is the sum of its digits weighted by the powers of its radix, scaled by its exponent, whatever its length.",
     "all number literals, exponents of at most four significant digits", LEXWHY, [SL], [{"name": "accumulation of digits", "where": SL + " number readers"}], LEXOBS, technique=ABS + ", values as symbolic recurrences over the digits", note=NOTE + " The value is compared as an expression over the digits; rounding of the floating-point operations is not claimed.")
prop("T09", "Identifiers take the whole word", "A token that starts with a letter, dollar sign or underscore is an identifier that extends over all following identifier characters and carries exactly that text.",
     "all UTF-8 texts", LEXWHY, [SL], [{"name": "identifier scanning", "where": SL + " identifier reader"}], LEXOBS, technique=ABS, note=NOTE + " Identifiers with non-ASCII characters are not claimed.")
prop("T10", "Whitespace and line ends are recognised", "Whitespace characters are skipped whole, each line terminator sequence gives exactly one line terminator token (a carriage return and line feed together count as one), and a character that starts no token is rejected.",
     "all UTF-8 texts", LEXWHY, [SL], [{"name": "whitespace and line terminator scanning", "where": SL + " next_token, read_next"}], LEXOBS, technique=ABS, note=NOTE)
prop("T11", "Positions are exact", "The range reported for every token starts and ends at the line and column obtained by counting line terminators and characters from the start of the text, however the text is split into tokens. The reported end of each token never lies before its start.",
     "all token sequences with all extents, whitespace and line terminators", "A position is the accumulated effect of everything read before; tests look at single tokens at the start of a text.", [SL, TM],
     [{"name": "line and column update", "where": SL + " next_token"}], ["the range returned with each token"], over=("inputs", "histories"), technique="abstract interpretation of the MIR of the position bookkeeping in lockstep with a counting transducer", note=NOTE + " One step of the bookkeeping is analysed from an arbitrary earlier state, so it holds by induction for whole texts.")
prop("T12", "Reading tokens never fails by accident", "No text makes the tokenizer index out of bounds, slice inside a character, overflow an arithmetic operation, unwrap an absent value or reach code marked unreachable.",
     "all UTF-8 texts and hints", LEXWHY, [SL, TM], [{"name": "every checked operation", "where": SL}], ["absence of an accidental panic"], technique="abstract interpretation of the MIR: every check site reachable in the tokenizer is shown never to fire", note=NOTE)
prop("T13", "Malformed lexemes are rejected", "Text that starts a string, template, regular expression, comment or number and does not complete it as the language requires is refused, and text that does complete it is never refused.",
     "all UTF-8 texts and hints", LEXWHY, [SL], [{"name": "refusal of malformed text", "where": SL + " explicit refusals in every reader"}], ["refusal or acceptance of one read"], technique=ABS, note=NOTE)
prop("T14", "Hints alone choose between readings", "Whether a slash starts a regular expression or a division depends only on whether an expression may start there, and whether a closing brace resumes a template only on whether a substitution is being closed. No other token depends on these hints.",
     "all UTF-8 texts, all four combinations of hints", LEXWHY, [SL, TM], [{"name": "use of the hints", "where": SL + " read_next"}], LEXOBS, over=("inputs", "configurations"), technique=ABS, note=NOTE)

exec(open(os.path.join(V, "tools", "mkdocs_parser.py")).read()) if os.path.exists(os.path.join(V, "tools", "mkdocs_parser.py")) else None

prop("N01", "Printed code means the same as the tree", "Printing a syntax tree gives source text that parses back to the same tree, with parentheses where precedence requires them.",
     "all syntax trees", "No test prints anything.", ["src/ast"], [{"name": "code generation", "where": "src/ast/*"}], ["printed text"], na="src/ast is not part of the crate: no mod declaration reaches it, so the build does not compile it and no compiler-resolved program exists to analyse; it also does not type-check against the current crate.")
prop("N02", "Decimal literals are correctly rounded", "The value of a decimal literal is the double nearest to its exact value.",
     "all decimal literals", "The tests sample six literals.", [SL], [{"name": "accumulation of digits", "where": SL}], ["token value"], na="a numerical result: the rounding of a chain of floating-point operations quantifies over runtime values; the structural part (which digits contribute with which weight) is claimed as T08.")
prop("N03", "Escapes decode to the right text", "The value of a string or template with escapes is the decoded text.",
     "all literals with escapes", "The tests sample a few escapes.", [SL], [{"name": "escape decoding", "where": SL}], ["token value"], na="the decoded text is an unbounded runtime value built piece by piece in a heap buffer whose contents the analysis does not track; extents and refusal of malformed escapes are claimed in T04, T05 and T13.")
prop("N04", "Deep nesting does not exhaust the stack", "Nested source text of any depth is parsed or refused without exhausting the stack.",
     "all nesting depths", "The tests nest two levels.", ["src/parser"], [{"name": "recursion of the parser", "where": "src/parser/*"}], ["process survival"], na="stack use per frame times depth is a runtime quantity; the parser is recursive by design, so the property is false for deep enough input and a static bound cannot establish it.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "No hooks: the checks read the MIR of the unmodified crate. See DESIGN.md."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
