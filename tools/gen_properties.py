#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Ordered choice commits to the first alternative that matches",
  "First(p1..pn) tries its alternatives left to right from the same source position, AST stack and context tag; its result (status, position, AST nodes) is exactly that of the first alternative that does not report Unmatched, and no later alternative is run. If every alternative is Unmatched the choice is Unmatched, and nothing an earlier failing alternative did is visible to a later one or in the result.",
  ["inputs", "programs"], "every list of alternatives (arbitrary child parsers, including ones that consume, push nodes, transform and then fail) and every source",
  "Only two grammars of the examples use First, on some twenty fixed sources; no test runs a failing alternative that has already consumed input or pushed nodes.",
  ["base/parsers.go", "base/base.go"], [("First", "base/parsers.go"), ("BaseParser ThereExists loop, prev/saved rewind", "base/base.go")],
  ["First(...)(ctx): MatchStatus, Position, AstStack"])
p("C02", "Sequences are all-or-nothing and keep source order",
  "FlatGroup, Group and Once match exactly when every child matches in order, each child starting where the previous one stopped; the resulting nodes are the children's nodes in order (Group wraps exactly those nodes in one list node, and nothing else). If a child is Unmatched the remaining children are not run and the enclosing parser goes on as if the sequence had never been tried.",
  ["inputs", "programs"], "every list of child parsers with arbitrary verdicts, advances and pushed nodes, from every starting position and stack",
  "The examples exercise a few fixed sequences end to end; no test looks at a sequence that fails after some children matched.",
  ["base/parsers.go", "base/base.go", "base/transformers.go"], [("FlatGroup/Group", "base/parsers.go"), ("BaseParser children loop", "base/base.go"), ("GroupingTransform", "base/transformers.go")],
  ["FlatGroup(...)(ctx)", "Group(...)(ctx)", "Once(...)(ctx)"])
p("C03", "Repetition is greedy and honours its bounds",
  "Repeat{Min,Max} (and ZeroOrOnce, ZeroOrMoreTimes, OneOrMoreTimes, Once) applies its children as often as they match, stopping at Max when Max is not negative; it matches exactly when at least Min rounds matched, Min negative meaning no lower limit, and it then holds the position and the nodes of the completed rounds only. A round that fails part-way contributes neither position nor nodes.",
  ["inputs", "programs", "configurations"], "every Min and Max (negative, zero, Min greater than Max included), every child sequence and every source",
  "Repeat with explicit bounds is not tested at all; the tests never reach a partly matched last round.",
  ["base/parsers.go", "base/base.go", "base/const.go"], [("Repeat, ZeroOrOnce, ZeroOrMoreTimes, OneOrMoreTimes", "base/parsers.go"), ("BaseParser quantifier loop", "base/base.go"), ("qty constants", "base/const.go")],
  ["Repeat(times, ...)(ctx): MatchStatus, Position, AstStack"])
p("C04", "Look-around decides correctly and consumes nothing",
  "LookAhead matches exactly when its children match in sequence from the current position, LookAheadN exactly when they do not; LookBehind(minN,maxN) matches exactly when the children match starting at some offset between minN and maxN back that lies inside the source, LookBehindN exactly when they match at none. Whatever the verdict, the parse continues from the unchanged position with unchanged AST nodes, and a child's error is reported as an error.",
  ["inputs", "programs"], "every child sequence, every source and position, every minN and maxN",
  "No test uses any look-around parser.",
  ["base/parsers.go", "base/base.go"], [("LookAhead/LookAheadN", "base/parsers.go"), ("lookBehindBase", "base/parsers.go"), ("rewind and negative handling", "base/base.go")],
  ["LookAhead(...)(ctx) and siblings inside FlatGroup/First"])
p("C05", "Errors abort the parse and are never backtracked",
  "When any parser or transformer reports an error (an error value, or error status without one), every enclosing combinator - sequence, choice, repetition, positive or negative look-around, transformation, deferred parser - stops at once and the whole parse ends with error status and that same error value; no alternative, further repetition or later sibling is run and no later transformer is applied. A parse in which no parser or transformer reports an error never ends in error.",
  ["inputs", "programs"], "every nesting of combinators around an error raised at any point, every source",
  "Two example tests provoke one error each and only check that some error came back.",
  ["base/base.go", "base/parsers.go", "base/transformers.go"], [("MatchStatus_Error handling", "base/base.go"), ("Error", "base/parsers.go"), ("TransformError", "base/transformers.go")],
  ["parser(ctx): err, MatchStatus; which parsers ran"])
p("C06", "Composed grammars parse as the PEG they spell",
  "For every grammar composed from the sequence, choice, repetition, look-ahead, grouping, transformation and deferred (Indirect) combinators, the parser's verdict, final position and AST nodes are those of the textbook PEG semantics of that grammar. In particular backtracking over any nesting leaves no trace, and wrapping a parser in If, Once, FlatGroup or Indirect changes nothing.",
  ["inputs", "programs"], "every grammar up to the stated size, with leaves matching arbitrary character ranges, over every source",
  "The tests run three fixed grammars on about twenty sources; the interaction of nested combinators is a property of all grammars.",
  ["base/base.go", "base/parsers.go"], [("BaseParser", "base/base.go"), ("Indirect, If", "base/parsers.go")],
  ["parser(ctx): MatchStatus, Position, AstStack"])
p("C07", "Transformers see and replace exactly their own parser's nodes",
  "Trans(p, t1..tn) runs only after p matched; t1 receives exactly the nodes p produced, each later transformer the result of the one before it, all of them the context p was started from, and the last result replaces p's nodes on the AST stack. Nodes already on the stack below p are never passed to a transformer, changed, reordered or dropped, and source position and verdict stay those of p.",
  ["inputs", "programs"], "every pre-existing stack, every node list p produces, every chain of transformers growing, shrinking or clearing the list",
  "Tests use Trans only with Concat, Erase and friends on a few sources and look at the final value only.",
  ["base/base.go", "base/parsers.go"], [("Trans", "base/parsers.go"), ("tr loop on out.AstStack[len(ctx.AstStack):]", "base/base.go")],
  ["Trans(p, t...)(ctx): arguments of t, AstStack"])
p("C08", "A constructed parser carries no state from one parse to the next",
  "The result of running a constructed parser or transformer on an input depends only on that input: it is the same whether the parser is fresh or has already been used any number of times on other inputs, with other outcomes. Parsing writes to no memory shared between parses (other than properly synchronised memory), so concurrent parses of separate contexts with one parser cannot influence one another.",
  ["histories", "inputs", "schedules"], "every sequence of earlier parses with the same parser and every input, and every interleaving of two parses with separate contexts",
  "Every test parses once per freshly initialised package-level parser or in a fixed order; no test reuses a parser on differing inputs or runs two at once.",
  ["base/parsers.go", "base/transformers.go", "base/base.go", "base/match.go", "string/parsers.go", "object/parsers.go", "extra/extra.go"], [("Indirect cache", "base/parsers.go"), ("captured constructor arguments of Zero, Prepend, Push, Set*", "base/transformers.go")],
  ["two calls of one ParserFn / TransformerFn; memory written by a call"])
p("C09", "Character matchers accept exactly their documented set",
  "Any, CharRange, CharRangeN, CharClassFn, Whitespace, WhitespaceNoLineBreak, LineBreak, Alpha, Number, Alnum, BinNumber, OctNumber and HexNumber match at a position exactly when a character starts there that belongs to the documented set (for the negated form: belongs to none of the ranges), consuming exactly that one character; at the end of the source none of them matches. Invalid UTF-8 bytes count as one U+FFFD character of one byte.",
  ["inputs"], "every source byte string, every position, every range list",
  "The tests named after these matchers have empty bodies; the examples touch a handful of characters.",
  ["string/parsers.go", "string/util.go"], [("matchers", "string/parsers.go"), ("isWhitespace, isLineBreak", "string/util.go")],
  ["matcher(ctx): MatchStatus, Position"])
p("C10", "Literal matchers match exactly the given text",
  "Seq(s) matches exactly when the source continues with s; SeqI(s) exactly when the next len(s) bytes equal s under Unicode simple case folding; CharClass(c1..cn) exactly when the source continues with one of the strings, taking the first listed that fits; CharClassN(c1..cn) exactly when it continues with none of them and is not at its end, taking one character. Each consumes exactly the matched text, and End and Start match exactly at the end and the beginning of the source.",
  ["inputs"], "every literal (empty, longer than the rest of the source and non-ASCII included), every source and position",
  "Seq has two cases, the others none.",
  ["string/parsers.go", "base/parsers.go"], [("Seq, SeqI, CharClass, CharClassN, End", "string/parsers.go"), ("Start", "base/parsers.go")],
  ["matcher(ctx): MatchStatus, Position, AstStack"])
p("C11", "Every token records its exact text and source span",
  "On a match a string matcher appends exactly one node (zero-width assertions none, Zero copies of the nodes it is given, with no length at that place) whose value is the consumed text (U+FFFD for an invalid byte), whose class name is the matcher's and whose source position and length are the start and byte length of that text, and the context's position and length advance accordingly. When it does not match it appends nothing and moves nothing, and no string matcher panics at any position within the source.",
  ["inputs"], "every string matcher, every source byte string (invalid UTF-8 included), every position from 0 to the source length, every earlier token length",
  "Only Seq is tested, at position 0, and source positions are never compared.",
  ["string/parsers.go", "base/parsers.go", "base/base.go"], [("Ast construction in each matcher", "string/parsers.go"), ("Zero", "base/parsers.go"), ("LightBaseParser", "base/base.go")],
  ["matcher(ctx): AstStack, Position, Length, ClassName, Quantity"])
p("C12", "Word boundaries are exactly the word/non-word transitions",
  "WordBoundary matches at a character position exactly when one of the two neighbouring characters is a word character and the other is not, the outside of the source counting as a non-word; word characters are [0-9A-Za-z_$]. UnicodeWordBoundary is the same with ID_Continue, '$', U+200C and U+200D as word characters; neither consumes anything.",
  ["inputs"], "every source and every character position, characters of every UTF-8 length included",
  "TestWordBoundary is empty; formula sources only contain ASCII.",
  ["string/parsers.go", "string/util.go", "extra/extra.go", "extra/util.go"], [("WordBoundary", "string/parsers.go"), ("UnicodeWordBoundary", "extra/extra.go"), ("isWord, isUnicodeWord", "string/util.go")],
  ["WordBoundary()(ctx), UnicodeWordBoundary()(ctx)"])
p("C13", "String transformers concatenate and trim exactly",
  "Concat replaces its nodes by one string node holding their values joined in order, with the first node's class name and position (an empty string node when there are none), and fails with an error when a node is not a string; Trim, TrimStart and TrimEnd do the same and remove from the named ends every whitespace character of the documented set and nothing else. None of them changes the nodes it was given.",
  ["inputs"], "every list of nodes, string or not, and every content",
  "TestConcat, TestTrim and friends have empty bodies.",
  ["string/transformers.go"], [("Concat, Trim, TrimStart, TrimEnd, cutset", "string/transformers.go")],
  ["transformer(ctx, asts)"])
p("C14", "Number conversions are exact or an error, never a panic",
  "ParseInt, ParseUint and their Radix forms (and ParseFloat) return one node whose value is exactly the number spelled by the concatenated text in that radix, typed Int, Uint or Float; ParseUint also accepts one leading '+'. Text that is not such a number, including the empty text, or does not fit in 64 bits yields an error, never a wrong value or a panic.",
  ["inputs", "configurations"], "every text and every radix",
  "TestParseInt, TestParseUint and TestParseFloat are empty; the examples convert small decimal numbers only.",
  ["string/transformers.go"], [("parseIntImpl, parseUintImpl, ParseFloat", "string/transformers.go")],
  ["transformer(ctx, asts): Value, Type, err"])
p("C15", "Rune, integer and string conversions keep the code point",
  "RuneFromInt, IntFromRune, StringFromInt and StringFromRune replace the first node holding a code point by one holding the same code point in the target representation, keeping class name and source position, and the node's declared type always describes the value it holds. Hence RuneFromInt followed by IntFromRune is the identity on code points, and a converted node is accepted or rejected by later transformers according to its real type.",
  ["inputs"], "every rune and every integer in rune range",
  "No test calls these transformers.",
  ["string/transformers.go"], [("RuneFromInt, IntFromRune, StringFromInt, StringFromRune", "string/transformers.go")],
  ["transformer(ctx, asts): Value, Type"])
p("C16", "AST-list transformers compute their documented result",
  "Erase, GroupingTransform, SetOpCode, ChangeClassName, SetOpCodeAndClassName, SetValue, Prepend, Push, Pop, Exchange and Roll return exactly the documented rearrangement of the nodes they are given (Roll(n) rotates by n, the overflow re-entering at the other end; inserted nodes take the position of their neighbour), for lists of every length including 0 and 1. They never modify the nodes they are given or nodes next to them.",
  ["inputs", "configurations"], "every node list length and content and every constructor argument",
  "No test calls any of these except Erase and ChangeClassName through the examples.",
  ["base/transformers.go"], [("transformers", "base/transformers.go")],
  ["transformer(ctx, asts): result, and asts afterwards"])
p("C17", "Production rules reduce by precedence and associativity",
  "ProductionRule repeatedly rewrites the node list: in each step the first precedence level having any rule that matches anywhere is applied once, at the leftmost (or for Rtol the rightmost) matching start, first rule first, replacing exactly the matched nodes by the rule's output; it stops when the check parser, consulted after each step, matches the whole list. If no rule applies and the check does not match it fails with an error, and an error value a rule returns is returned as is.",
  ["inputs", "programs"], "every node list, every set of rules and levels, both directions",
  "Three fixed levels of the formula examples on a few expressions, all without equal-precedence conflicts in which direction matters for several rules.",
  ["base/production.go"], [("ProductionRule", "base/production.go")],
  ["ProductionRule(levels, check)(ctx, asts)"])
p("C18", "Match applies the first fitting case to the top n nodes",
  "Match(n)(cases...) selects the first case whose predicate accepts the current AST stack, passes the top n nodes (all of them when there are fewer) through that case's transformers and replaces exactly those nodes; with no fitting case it is Unmatched and changes nothing. The TopIs predicates hold exactly when the stack is non-empty and its top value has the named type and equals one of the listed values (TopIsAny always); nothing is consumed.",
  ["inputs", "programs"], "every stack (shorter than n included), every case list and every listed value",
  "No test uses Match or any TopIs predicate.",
  ["base/match.go"], [("Match, TopIs*", "base/match.go")],
  ["Match(n)(cases...)(ctx)"])
p("C19", "Object parsers match exactly the listed values",
  "Over a slice of any element type, Any matches one element, End exactly the end, Seq(v1..vn) exactly when the next n elements equal v1..vn in order, ObjClass exactly when the next element equals one of the values, ObjClassN exactly when there is one and it equals none, ObjClassFn exactly when there is one the function accepts. Each consumes exactly the elements it matched and pushes one node with exactly those elements, their position and a type that describes the value; on no match nothing changes, and ToSlice rebuilds a source-typed slice of the node values in order.",
  ["inputs"], "every element sequence, every listed value and every position",
  "object/TestA compares true with true; the examples use Any, End and ObjClassFn only, on matching input.",
  ["object/parsers.go", "base/transformers.go"], [("Any, End, Seq, ObjClass, ObjClassN, ObjClassFn", "object/parsers.go"), ("ToSlice", "base/transformers.go")],
  ["objparser matcher(ctx): MatchStatus, Position, AstStack"])
p("C20", "AST slices behave as values and compare structurally",
  "AstSlice's Len, Get, Set, Reslice, Copy and Make behave like the slice operations they name, and a Copy is independent of its source. ItemEquals is an equivalence relation that holds exactly when class name, type and value (recursively for cons cells and lists) agree under Go's deep equality (functions and NaN aside), whatever the opcodes and source positions.",
  ["inputs"], "every pair and triple of nodes up to the stated depth, every index",
  "ItemEquals is only used to compare flat lists of string nodes in TestSeq.",
  ["base/ast.go"], [("AstSlice methods, ItemEquals", "base/ast.go")],
  ["AstSlice methods"])
p("C21", "Traverse visits each node once, in order, without touching the input",
  "Traverse calls the outbound callback before and the return callback after a node's children, children left to right (car before cdr), each node once, and returns the tree rebuilt from the callbacks' results; Lazy mode skips the children, Last mode keeps only the last child's result and obeys Break, Continue and relative jumps that stay in the list. The first error or thrown value stops the walk, is reported to every enclosing node's error callback innermost first and is returned; the tree passed in is never modified.",
  ["inputs", "programs"], "every tree up to the stated size and every behaviour of the callbacks",
  "No test calls Traverse.",
  ["base/ast.go"], [("Ast.Traverse", "base/ast.go")],
  ["Ast.Traverse: callback sequence, result, error"])
p("C22", "Tracing is transparent, balanced and scoped",
  "A parser built inside DebugTrace returns exactly what the untraced parser returns; the tracer sees a properly nested Before/After pair per invocation of each parser built there (a deferred child is built when first used, so outside) (Panic instead of After when the parser panics, and the panic continues), with After seeing that parser's own result and every event carrying its parser's scope and tracking number, distinct for distinct parsers. Building a parser inside DebugTrace leaves parsers built before or afterwards untraced and restores the enclosing scope and tracer, nested traces included.",
  ["inputs", "programs", "histories"], "every traced grammar up to the stated size, every source, every order of building traced and untraced parsers",
  "No test uses DebugTrace.",
  ["base/tracer.go", "base/base.go"], [("DebugTrace, tracer", "base/tracer.go"), ("traceEnabled branches", "base/base.go")],
  ["ParserTracer callbacks; parser(ctx)"])
p("C23", "Reported line, column and excerpt locate the position",
  "For every source and every position within it, the reported line is one plus the number of line breaks (CR, LF or CRLF counted once) in the text before the position, the line index is the offset of that line's start and the column is one plus the byte distance from it. The excerpt shows the previous line (if any) and the whole current line with tabs expanded to the given width, and the caret line points at the reported position.",
  ["inputs", "configurations"], "every source, every position from 0 to its length, every non-negative tab size",
  "The error texts produced in the example tests are printed, never compared.",
  ["base/util.go"], [("GetLineAndColPosition", "base/util.go")],
  ["GetLineAndColPosition(src, pos, tabSize)"])
p("C24", "Number lexers accept exactly their number language",
  "BinaryNumberStr, OctalNumberStr, HexNumberStr, IntegerNumberStr, FloatNumberStr and NumericStr match the documented number at the current position (longest according to the grammar), and the produced text is the consumed text without '_' separators. The produced text always contains a digit in every place the number format requires one, so that the corresponding conversion accepts it (up to range), and text that does not start such a number is not matched.",
  ["inputs"], "every source text up to the stated length and every position",
  "extra has no tests; the examples use IntegerNumberStr on small numbers.",
  ["extra/extra.go"], [("BinaryNumberStr .. NumericStr, exponentStr", "extra/extra.go")],
  ["lexer(ctx): MatchStatus, Position, Value"])
p("C25", "Identifier lexers take the longest documented identifier",
  "AsciiIdentifierStr matches the longest prefix of the form [A-Za-z_$][0-9A-Za-z_$]* and UnicodeIdentifierStr the longest prefix of the form {ID_Start,_,$}{ID_Continue,$,U+200C,U+200D}*; both yield exactly that text and do not match where no such identifier starts.",
  ["inputs"], "every source text up to the stated length",
  "No test calls them.",
  ["extra/extra.go"], [("AsciiIdentifierStr, UnicodeIdentifierStr", "extra/extra.go")],
  ["lexer(ctx): MatchStatus, Position, Value"])
p("C26", "Date and time lexers accept and normalise exactly ISO 8601 forms",
  "DateStr, TimeStr and DateTimeStr match exactly the documented ISO 8601 extended forms at the current position; times are normalised to hh:mm:ss.fffffffff, missing seconds and fractions becoming zeros and given fraction digits kept and zero-padded on the right, and date-times end in a numeric offset, Z becoming +00:00. All other characters appear in the produced text as written.",
  ["inputs"], "every source text up to the stated length, seconds, fraction and offset present or absent",
  "No test calls them.",
  ["extra/extra.go"], [("DateStr, DateTimeStr, TimeStr", "extra/extra.go")],
  ["lexer(ctx): MatchStatus, Position, Value"])
p("C27", "Boxes return what was stored, and refuse unset variables",
  "After a Set on a box over a settable value or a map entry, the matching Get returns the stored value (nil included where the element type is an interface) and other entries of the map are unchanged; Index, MapIndex and ComplexMapIndex address exactly the named element. A not-yet-initialised map box panics on every read or navigation until the first Set and behaves like a map box afterwards.",
  ["inputs", "histories"], "every value, every key and every sequence of operations up to the stated length",
  "No test uses any Box.",
  ["base/box.go"], [("ReflectionBox, MapContainerReflectionBox, NotInitializedMapContainerReflectionBox", "base/box.go")],
  ["Box methods"])
p("C28", "CSV parsing recovers exactly the quoted and plain cells",
  "csv.Parse splits every text into rows at runs of line breaks and cells at commas; a plain cell is its text trimmed of whitespace, a quoted cell is the text between the quotes with each doubled quote standing for one quote, commas and line breaks included (adjacent quoted sections are joined, invalid UTF-8 bytes read as U+FFFD). Trailing blank rows are dropped, an unterminated quote or text after a closing quote is an error, and no input makes it panic.",
  ["inputs"], "every text up to the stated length",
  "Five fixed texts, none with a doubled quote, whitespace or a blank line.",
  ["_examples/csv/parser.go"], [("document, line, quotedCell, cell", "_examples/csv/parser.go"), ("lineTransform, documentTransform", "_examples/csv/parser.go")],
  ["csv.Parse"])
p("C29", "CSV output parses back to the same table",
  "For every table of valid UTF-8 cells with at least one cell per row and no row consisting of a single empty cell, csv.Parse(csv.ToCsv(table)) returns the table unchanged, cells containing commas, quotes, line breaks or surrounding whitespace included.",
  ["inputs"], "every table of valid UTF-8 cells up to the stated size",
  "ToCsv is never called by a test.",
  ["_examples/csv/marshal.go", "_examples/csv/parser.go"], [("toCsvRow, ToCsv", "_examples/csv/marshal.go"), ("quotedCell, cell", "_examples/csv/parser.go")],
  ["csv.Parse(csv.ToCsv(t))"])
p("C30", "CSV struct mapping is faithful, deterministic and total",
  "csv.Unmarshal fills each exported string, integer or float field of a struct from the column named by its tag, or failing that its name, in every row, and returns an error for text that does not fit the field; csv.Marshal writes each listed column from the field whose tag, or name when it has none, it is and leaves columns without a field empty, whatever the order in which fields are processed, fields that are not listed having no effect. Neither panics on any text (rows shorter than the header included), and Unmarshal of a header of distinct columns plus Marshal's output restores the values.",
  ["inputs", "configurations"], "every field value, every selection and order of columns, every text up to the stated size, every map iteration order",
  "No test calls Marshal or Unmarshal, and one run sees one map iteration order.",
  ["_examples/csv/marshal.go"], [("Marshal, Unmarshal", "_examples/csv/marshal.go")],
  ["csv.Marshal, csv.Unmarshal"])
p("C31", "Formula evaluation follows arithmetic precedence",
  "formula.Parse accepts exactly the documented integer expression language and returns the value under the usual rules - unary minus first, then * and /, then + and -, left to right, parentheses first, 64-bit integer arithmetic, a '+' directly before a literal belonging to it, and so does a '-' between an operator and a literal - independently of whitespace. Everything else, division by zero and literals outside the 64-bit range included, is reported as an error and never as a panic or a value.",
  ["inputs"], "every source text up to the stated length",
  "Thirteen fixed expressions; none divides or chains operators of one level in which order shows.",
  ["_examples/formula/formula.go", "_examples/formula/precedence.go", "_examples/formula/helper.go", "base/production.go"], [("program, expression", "_examples/formula/formula.go"), ("precedences", "_examples/formula/precedence.go")],
  ["formula.Parse"])
p("C32", "RPN conversion is the postfix form of the same expression",
  "torpn.Parse accepts the same language as the formula evaluator and returns its postorder: operands in source order, every operator directly after its operands, grouping by the usual precedence and left associativity, a unary minus folded into a literal operand (parenthesised or not) and otherwise emitted as '-'. Other texts give an error, never a panic.",
  ["inputs"], "every source text up to the stated length",
  "Ten fixed expressions.",
  ["_examples/torpn/torpn.go", "_examples/torpn/precedence.go", "base/production.go"], [("program, expression", "_examples/torpn/torpn.go"), ("transformBinaryOp, transformUnaryOp", "_examples/torpn/precedence.go")],
  ["torpn.Parse"])
p("C33", "Date and time conversions yield the written instant or an error",
  "ParseDate, ParseTime and ParseDateTime turn the text produced by the corresponding lexer into the UTC instant it denotes (a time of day on 1970-01-01, an offset subtracted), down to the nanosecond; a text naming no such instant, such as month 13 or February 30, gives an error and never another instant or a panic.",
  ["inputs"], "every four-digit year date, every time of day with fraction, every offset",
  "No test calls them.",
  ["extra/transformers.go"], [("ParseDate, ParseDateTime, ParseTime", "extra/transformers.go")],
  ["transformer(ctx, asts): Value (time.Time), err"])
p("C34", "The WebAssembly bridge returns what the native parsers return",
  "The functions exported to JavaScript convert their argument, call the CSV and formula parsers and hand back the same rows or value that the Go API returns for that text.",
  ["inputs"], "every text passed from JavaScript",
  "wasm/ has no tests and is only compiled.",
  ["wasm/main.go"], [("parseCsv, parseFormula", "wasm/main.go")],
  ["globalThis.parseCsv, globalThis.parseFormula"])
p("C35", "Every parser keeps the parser contract on every text",
  "Whatever the text (empty, cut short, invalid UTF-8) and position, no library parser panics: it returns exactly one of match, no match and error (an error status always with an error value). A match ends inside the source at or behind its start, keeps earlier nodes, and the nodes it adds for consumed text lie inside the consumed text in order; no match leaves position and nodes as they were; the source and the tag are kept and the caller's own nodes are never changed.",
  ["inputs", "programs"], "every parser, position and text up to the stated length, pairs of parsers in sequences, choices, repetitions and look-ahead",
  "Tests feed well-formed ASCII texts from position 0.",
  ["base/base.go", "base/parsers.go", "string/parsers.go", "string/transformers.go", "extra/extra.go", "extra/transformers.go"], [("BaseParser, LightBaseParser", "base/base.go"), ("matchers", "string/parsers.go"), ("lexers", "extra/extra.go")],
  ["parser(ctx): status, Position, AstStack, err"])
p("C36", "Parsing at a position is parsing the rest of the source",
  "Parsers other than Start, the look-behind assertions and the word boundaries do not depend on what is before the position, on how many nodes are below or on what the previous token was: on text s preceded by any other text they give the verdict, the consumed length, the errors and the node values they give on s alone, node positions shifted by the length of the preceding text.",
  ["inputs", "programs"], "every such parser, every text and preceding text up to the stated lengths",
  "A relation between two parses; tests only compare one parse with a constant.",
  ["base/base.go", "string/parsers.go", "string/transformers.go", "extra/extra.go"], [("matchers", "string/parsers.go"), ("lexers", "extra/extra.go"), ("BaseParser", "base/base.go")],
  ["parser(ctx at pos of prefix+s) against parser(ctx at 0 of s)"])
p("C37", "Equivalent spellings of a grammar are interchangeable",
  "The laws grammar writers rely on hold for all child parsers whose outcome depends on the position only: sequence and choice are associative with their units, FlatGroup, Once, First, Trans, If and Indirect around one parser change nothing, common prefixes factor out, options and bounded or unbounded repetitions equal their expansion into sequences and recursion, double negation and De Morgan hold for look-ahead and look-behind, an and-predicate before its own parser is redundant, Trans composes, and Group is FlatGroup with GroupingTransform. Both sides give the same verdict, error, position, nodes and tag, in any surrounding parser.",
  ["programs", "inputs"], "every outcome of the children (match of any length with tag and node, no match, error) at every position up to the stated number",
  "Each law relates two grammars over all inputs; no test compares grammars.",
  ["base/base.go", "base/parsers.go"], [("BaseParser", "base/base.go"), ("combinators", "base/parsers.go")],
  ["both spellings' results"])
p("C38", "A new context stands at the start with nothing parsed",
  "NewStringParserContext, NewObjectParserContext and their WithTag forms give a context at position 0 with no nodes, the given source and the given tag (none otherwise). Contexts share nothing: results of a parse of one are never changed by parses of others, and a later context is as new as the first.",
  ["inputs", "histories"], "every source and tag up to the stated size, every order of two parses followed by a third",
  "Each test makes one context and parses once.",
  ["string/new.go", "object/new.go"], [("NewStringParserContext, NewStringParserContextWithTag", "string/new.go"), ("NewObjectParserContext, NewObjectParserContextWithTag", "object/new.go")],
  ["*ParserContext returned, results of parses"])
p("C39", "A failed parse tells where it failed",
  "A parse that ends with an error, however deep in combinators it arose, leaves the context it returns at the place where the failing parser reported it, or, for a transformer's error, at the end of the text its parser consumed. The errors of csv.Parse, formula.Parse and torpn.Parse give a message followed by line, column and excerpt of that place: the end of the text for an unterminated quote, the place of a missing operand, just inside an unclosed parenthesis, behind a number that is out of range, the end of the expression that divides by zero; a text that merely does not match is reported at its start.",
  ["inputs", "programs"], "every outcome of the child parsers in nested combinators, every text up to the stated length",
  "No test looks at the position of an error.",
  ["base/base.go", "base/parsers.go", "_examples/csv/parser.go", "_examples/formula/formula.go", "_examples/torpn/torpn.go"], [("BaseParser, LightBaseParser", "base/base.go"), ("Error", "base/parsers.go"), ("GetLineAndColPosition", "base/util.go"), ("Parse", "_examples/csv/parser.go"), ("Parse", "_examples/formula/formula.go")],
  ["returned context's Position, error texts of csv.Parse, formula.Parse, torpn.Parse"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
