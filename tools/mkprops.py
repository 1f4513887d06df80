#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

PARSER = ["parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","parser/field.go","parser/mapField.go","parser/groupField.go","parser/option.go","parser/reserved.go","parser/extensions.go","parser/declaration.go","parser/import.go","parser/package.go","parser/syntax.go","parser/edition.go"]
LEX = ["lexer/lexer.go","lexer/constant.go","lexer/fullIdent.go","lexer/messageType.go","lexer/emptyStatement.go"]
SCAN = ["lexer/scanner/scanner.go","lexer/scanner/ident.go","lexer/scanner/numberLit.go","lexer/scanner/strLit.go","lexer/scanner/comment.go","lexer/scanner/token.go","lexer/scanner/position.go"]

prop("P01", "Parsing any bytes terminates with a sound tree or an error, never a crash",
 "For every byte sequence and every combination of options, parsing terminates and returns either a tree and no error or no tree and an error; it never panics, overflows the stack or loops. Every accepted tree holds only non-nil statements of the kinds its documentation names for that place, so that walking it with a visitor and interpreting it unordered also complete without a panic.",
 ["inputs","configurations"], "every byte string (text, binary, truncated, hugely nested, invalid UTF-8, NUL bytes), each of the debug/permissive/comments/filename options",
 "Tests feed a few dozen hand-written well-formed snippets; crashes and hangs live in arbitrary bytes, truncations at every point and deep nesting.",
 ["protoparser.go"]+PARSER+LEX+SCAN,
 [("recursive descent with every token kind checked","parser/*.go"),("end-of-input sentinel","lexer/scanner/scanner.go"),("bounded nesting","parser/message.go, parser/option.go")],
 ["return values of protoparser.Parse and of each Parser.ParseX","the returned tree","process exit of a child process"])

prop("P02", "Every conforming file is accepted and its tree says exactly what the file says",
 "Every file that conforms to the documented proto2, proto3 or editions grammar is accepted by the default options, and the tree holds every construct of the file: its kind, names, types, labels, numbers, ranges, option names and constants verbatim, each under the right parent and in source order, and nothing else.",
 ["inputs","programs"], "every file derivable from the documented grammar, including keyword-named identifiers, every literal form, every nesting and any layout",
 "Each test fixes one statement and one layout; the space of combinations of statements, identifiers that equal keywords, literal forms, nesting and buffer boundaries is unbounded.",
 ["protoparser.go"]+PARSER+LEX+SCAN,
 [("one parse function per production","parser/*.go"),("contextual keywords through scan modes","lexer/lexer.go"),("multi-token lookahead for groups and empty aggregates","parser/groupField.go, parser/option.go")],
 ["tree returned by protoparser.Parse compared with the generator's own record of the file"])

prop("P03", "Files outside the grammar are rejected, not repaired",
 "A file that the documented grammar together with the documented permissive extensions does not derive is rejected with an error: a missing, extra, misplaced or misspelt token, an unterminated string, comment or block, or a malformed literal never yields a tree.",
 ["inputs"], "every token sequence one or a few edits away from a conforming file, and every lexically malformed file",
 "Tests contain a handful of negative examples per statement; wrong acceptance hides in the edits nobody wrote down.",
 PARSER+LEX+SCAN,
 [("each expected token is checked before it is consumed","parser/*.go"),("lexical errors become illegal tokens","lexer/scanner/scanner.go")],
 ["error/non-error verdict of protoparser.Parse compared with an independent recogniser"])

prop("P04", "No significant token of an accepted file is dropped, duplicated or reordered",
 "For every accepted file, whatever its shape, each significant token of the source (names, numbers, literals, keywords, the operators inside option values) is accounted for by exactly one place of the tree in source order; no statement, list element, range, option, modifier or name vanishes, is merged with another, or appears twice.",
 ["inputs"], "every accepted file, including ones that are accepted only leniently",
 "Tests compare trees for chosen files; nothing checks that an arbitrary accepted file leaves no residue.",
 PARSER+LEX,
 [("append of each parsed element to its parent's slice","parser/*.go"),("string building of aggregate constants and full identifiers","parser/option.go, lexer/*.go")],
 ["token stream rendered back from the tree compared with an independent tokenisation of the source"])

prop("P05", "Strict mode accepts a subset with the same tree; extensions need permissive mode",
 "Every file accepted with the permissive option off is accepted with it on and gives an equal tree, except that a semicolon right after a block is an empty statement of its own in strict mode and part of the block in permissive mode. A file that uses a documented permissive extension (a semicolon after a block, aggregate or list option values, adjacent string literals, a leading dot in a parenthesised option name) is accepted in permissive mode with that extension represented faithfully and is rejected in strict mode wherever the strict grammar does not derive it; permissive is the default.",
 ["inputs","configurations"], "every file, in both modes and by default",
 "Tests check the flag on a few single statements; the relation between the two modes over whole files is never checked.",
 ["protoparser.go","parser/parser.go","parser/option.go","parser/message.go","parser/enum.go","parser/extend.go","parser/oneof.go","parser/service.go","lexer/constant.go"],
 [("permissive flag consulted at each extension","parser/option.go, parser/*.go, lexer/constant.go"),("default value of the flag","protoparser.go")],
 ["pair of results of protoparser.Parse with the option on and off"])

prop("P06", "Every recorded position is exact",
 "In the tree of every accepted UTF-8 file, each recorded start position is that of the first character of its construct and each recorded last position that of its last character: byte offset, line and column (counted in characters, both from 1) agree with the source and with each other and carry the given file name; nested constructs lie within their parents and siblings do not overlap.",
 ["inputs"], "every accepted UTF-8 file: tabs, carriage returns, multi-byte characters, comments and newlines at every token boundary, files beyond the read-buffer size",
 "Tests assert a few positions in short ASCII snippets; drift appears only after look-ahead is pushed back over newlines and multi-byte text.",
 ["lexer/scanner/position.go","lexer/scanner/scanner.go","lexer/lexer.go","parser/comment.go","parser/meta/position.go"]+PARSER,
 [("advance/revert of the scanner position with remembered line lengths","lexer/scanner/position.go"),("start position saved before the first token is consumed","parser/*.go")],
 ["Meta fields of every node, compared with positions recomputed from the source text"],
 [("scanner position","offset, line, column and the remembered column of each finished line","lexer/scanner/position.go")])

prop("P07", "Each comment is attached verbatim, once, to the element it documents",
 "Every comment placed before a statement other than an empty one (in a file, a message, group, enum, service, extend or oneof body) or before an extension declaration appears, verbatim with its position and in order, among that element's leading comments; a comment on the line where the element ends, after it, is its inline comment; one on the line of an opening brace or bracket is the block's behind-brace comment; one inside a method's header is an embedded comment of that method (comments inside method bodies and other statements are not recorded). No comment is attached to two places or to another element.",
 ["inputs"], "every placement of line and block comments around every kind of element, in every body, first, last or alone",
 "Tests place comments at a few spots of a few statements; attachment depends on the combination of place, line breaks, neighbour and look-ahead.",
 ["parser/comment.go","parser/inlineComment.go","parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","parser/extensions.go","parser/declaration.go","lexer/lexer.go","lexer/scanner/comment.go"],
 [("leading comments collected before each statement","parser/comment.go"),("same-line test for inline comments","parser/inlineComment.go"),("scanned-comment log for method headers","lexer/scanner/scanner.go")],
 ["Comments, InlineComment, InlineCommentBehindLeftCurly/Square and EmbeddedComments of every node"])

prop("P08", "Body-including-comments keeps every leftover comment and changes nothing else",
 "With the option that includes comments into bodies, every comment that would otherwise belong to no element (before an empty statement, the end of the file or the closing brace of a message, group, enum, service or extend) appears as a comment element of that body, once, verbatim, in source order at its place among the statements; apart from these elements the result, including acceptance, is the same as without the option.",
 ["inputs","configurations"], "every file, with the option on and off",
 "Tests use a few comment-only bodies; the relation between the two results for arbitrary files is not checked.",
 ["protoparser.go","parser/parser.go","parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go"],
 [("leftover comments appended to the body when it closes","parser/*.go")],
 ["pair of results of protoparser.Parse with the option on and off, and the comments of the source"])

prop("P09", "Layout does not matter: whitespace and comments never change the structure",
 "Replacing the white space and comments between the tokens of a file by any other white space and comments (including none where tokens stay separate, and any line ending) changes neither whether the file is accepted nor the structure and texts of the resulting tree; only positions and comments may differ.",
 ["inputs"], "every pair of files with the same token sequence and different layout, accepted or not",
 "A test fixes one layout per file; relations between layouts are never checked.",
 ["lexer/scanner/scanner.go","lexer/scanner/comment.go","lexer/lexer.go"]+PARSER,
 [("white space and comments skipped in the scanner unless asked for","lexer/scanner/scanner.go"),("push-back restores the raw text including skipped layout","lexer/scanner/scanner.go, lexer/lexer.go")],
 ["trees and verdicts of protoparser.Parse over re-laid-out variants of one token sequence"])

prop("P10", "How the input is delivered never matters; a failing reader never means success",
 "The result depends only on the bytes delivered before the end of input: any split into reads, including one byte at a time, empty reads and data returned together with end-of-file, gives the same tree or the same error position. If the reader fails with an error other than end-of-file before the input is complete, parsing reports an error and no tree, and a lexer on that reader reports an error, never the end of the input.",
 ["inputs","fault_sequences"], "every split of every input into reads, and a read failure at every byte offset",
 "Tests read from in-memory strings that deliver everything at once and never fail.",
 ["protoparser.go","lexer/scanner/scanner.go","lexer/scanner/eof.go","lexer/lexer.go"],
 [("buffered rune reader","lexer/scanner/scanner.go"),("end of input told apart from failure","lexer/scanner/scanner.go")],
 ["result of protoparser.Parse over instrumented readers"])

prop("P11", "The debug and file-name options never change what is parsed",
 "Turning the debug option on only adds log output: acceptance, the tree and the error position are the same as with it off. The file name option only sets the file name recorded in the file's metadata and in positions, verbatim, and changes nothing else. The options are independent: their order does not matter, an option given its default value is as if absent, and the last of a repeated one counts.",
 ["inputs","configurations"], "every file, accepted or rejected, with each option value and any file name",
 "Tests never compare a parse under these options with the same parse without them.",
 ["protoparser.go","lexer/lexer.go","lexer/error.go","lexer/scanner/scanner.go","parser/proto.go"],
 [("debug-only logging","lexer/lexer.go, lexer/error.go"),("file name carried in every position copy","lexer/scanner/position.go")],
 ["trees, errors and log output of protoparser.Parse under each option"])

prop("P12", "Parses are isolated: concurrent or repeated parses never influence one another",
 "Parsing is a function of its input and options: any number of parses, interpretations and walks running concurrently on separate inputs, or concurrent read-only walks and interpretations of one tree, are free of data races and give the same results as running each alone. Parsing again gives an equal result, and later parses or further use of a lexer never alter a tree, token text or raw text already handed out.",
 ["schedules","histories","inputs"], "every interleaving of concurrent parses/walks/interpretations, and every order of repeated parses",
 "Tests run one parse at a time and never under the race detector with shared data.",
 ["protoparser.go","parser/parser.go","parser/field.go","parser/mapField.go","lexer/lexer.go","lexer/scanner/scanner.go","lexer/scanner/position.go","lexer/scanner/token.go","interpret/unordered/proto.go"],
 [("no mutable package state","parser/*.go, lexer/**"),("raw token text copied before it is handed out","lexer/scanner/scanner.go")],
 ["race detector reports","trees of concurrent, sequential and repeated parses","snapshots of handed-out values"])

prop("P13", "A visitor meets every element and comment exactly once and can prune",
 "Walking a tree calls the visitor's method for its kind exactly once for every element and every comment the tree holds, the statements of a body in the order the tree lists them, a parent before its children, and dispatches to the method of the node's own kind. When the visitor answers false for an element, exactly the descendants and comments of that element are skipped and nothing else.",
 ["inputs","programs"], "every tree obtainable by parsing and every pruning choice a visitor makes",
 "Tests walk one sample tree; omissions concern particular fields of particular node kinds and pruning combinations.",
 ["parser/visitor.go","parser/visitee.go","parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","parser/extensions.go","parser/declaration.go","parser/field.go","parser/groupField.go","parser/mapField.go","parser/option.go","parser/comment.go"],
 [("one Accept per node kind forwarding to children and comments","parser/*.go")],
 ["call trace of a recording visitor compared with a reflective inventory of the tree"])

prop("P14", "Unordered interpretation conserves the whole tree and does not touch it",
 "Unordered interpretation of any parsed file succeeds and puts every element of every body into the list of its kind, exactly once and in source order, at every nesting level, carrying over names, syntax and edition, comments and positions; it invents nothing and leaves the ordered tree unchanged.",
 ["inputs","programs","configurations"], "every tree obtainable by parsing under any options",
 "Tests interpret a few hand-built trees; loss depends on which kind of element appears in which body.",
 ["protoparser.go","interpret/unordered/proto.go","interpret/unordered/message.go","interpret/unordered/enum.go","interpret/unordered/service.go","interpret/unordered/extend.go"],
 [("type switch over each body appending to per-kind slices","interpret/unordered/*.go")],
 ["the unordered result compared with the ordered tree, and the tree before and after"])

prop("P15", "Lexer look-ahead and push-back never lose or alter input",
 "After any sequence of lexer calls, peeking one or several tokens leaves the following tokens, texts and positions as if it had not happened; pushing the last token back (or several in reverse order by their raw text) restores the position it was scanned from and makes the next scan, in the same or another mode, see the same characters again. A conditional consume takes the token if it matches and nothing otherwise.",
 ["histories","inputs"], "every input and every sequence of scan (in every mode), peek, multi-peek, push-back, consume and composite read operations",
 "Tests exercise single push-backs on short inputs; the state space of operation sequences is unbounded.",
 ["lexer/lexer.go","lexer/constant.go","lexer/fullIdent.go","lexer/messageType.go","lexer/enumType.go","lexer/emptyStatement.go","lexer/scanner/scanner.go","lexer/scanner/position.go"],
 [("raw text of the last scan and a push-back buffer","lexer/scanner/scanner.go"),("mode saved and restored around a scan","lexer/lexer.go")],
 ["Token, Text, RawText and Pos after each lexer operation, compared with an independent model"],
 [("push-back buffer","characters to be re-read before the reader","lexer/scanner/scanner.go"),("last raw scan","characters consumed by the last scan","lexer/scanner/scanner.go")])

prop("P16", "Tokenisation partitions the input exactly in every scan mode",
 "For every UTF-8 input and scan mode, successive scans return the tokens the lexical grammar defines for that mode (identifiers, keywords, integer, float, boolean and string literals, comments, single-character symbols, end of input) with exact text and start position, and the raw texts of the scans concatenated reproduce the input up to the point reached without gap or overlap. Malformed literals and comments are reported as illegal tokens with an error, and the end of input is reported again however often it is asked for. The comments a scanner lists as scanned are those it has come across, each once, in order, with their positions.",
 ["inputs","configurations"], "every UTF-8 input and every combination of scan-mode bits",
 "Tests list tokens of short samples in a few modes; maximal munch, mode combinations and malformed literals are open-ended.",
 SCAN+["lexer/scanner/lettersdigits.go","lexer/scanner/boolLit.go","lexer/scanner/floatLit.go","lexer/scanner/quote.go","lexer/scanner/mode.go"],
 [("maximal munch per token class","lexer/scanner/*.go"),("mode bits select token classes","lexer/scanner/scanner.go")],
 ["Scan results and LastScanRaw, compared with an independent tokeniser"])

prop("P17", "String constants keep their value",
 "A string constant in an option or import is reported with its exact source text, quotes and escapes included. Adjacent string literals in permissive mode are merged into one literal whose decoded value is the concatenation of the decoded values of the parts, whatever quotes and escapes they use, in first-quote style; in strict mode only a single literal is taken.",
 ["inputs"], "every sequence of adjacent literals over all quote styles, escape forms, multi-byte text and layouts between them",
 "Tests merge a few plain literals; quotes and escapes at the literal boundaries are where the value changes.",
 ["lexer/constant.go","lexer/scanner/strLit.go","parser/option.go","parser/import.go"],
 [("merge of adjacent literals","lexer/constant.go"),("escape-aware string scanning","lexer/scanner/strLit.go")],
 ["decoded value of the constants in the tree compared with the decoded source literals"])

prop("P18", "Errors are typed, located at the offending token and name the file",
 "Every rejection yields an error whose chain contains the library's error type with a position inside the input: consistent offset, line and column, the given file name, not before the end of the last token that could still continue a valid file and not after the start of the first token that cannot. It states what was expected. The same holds for the errors of the entry points that parse one statement.",
 ["inputs"], "every rejected UTF-8 input",
 "Tests compare at most whether an error occurred; the position for arbitrary broken files is never checked.",
 ["parser/error.go","lexer/error.go","lexer/scanner/error.go","parser/meta/error.go"]+PARSER,
 [("error built from the current token's position","parser/error.go, lexer/error.go")],
 ["the error returned by protoparser.Parse, compared with the failure point of an independent parser"])

prop("P19", "Work and memory grow in proportion to the input size",
 "The work done and memory allocated by a parse, a walk over its tree and its unordered interpretation grow at most proportionally (up to a constant and small slack) with the input length, for every repeated or lengthened construct: long tokens, runs of white space or comments, many statements or list elements, many methods with comments, long aggregates and string sequences. No input family makes cost quadratic.",
 ["inputs"], "every family of inputs that repeats or lengthens one construct, at growing sizes",
 "Tests use inputs of a few hundred bytes and measure nothing.",
 ["lexer/scanner/scanner.go","lexer/scanner/comment.go","lexer/scanner/ident.go","lexer/scanner/strLit.go","lexer/scanner/numberLit.go","lexer/lexer.go","lexer/constant.go","lexer/fullIdent.go","lexer/messageType.go","parser/option.go","parser/comment.go","parser/service.go"],
 [("bounded look-ahead","parser/groupField.go, parser/option.go"),("linear push-back and text building","lexer/scanner/*.go")],
 ["executed-statement counters and allocated bytes at two or more sizes"])

prop("P20", "A statement parses the same alone, in a file and next to any neighbour",
 "Each entry point that parses one statement yields the node that the same text gives inside a whole file (positions shifted), consumes exactly that statement so that the next call continues right behind it, and leaves other statements unaffected; on text that does not start with such a statement it reports an error. Parsing two files' statements one after the other gives the concatenation of parsing each.",
 ["inputs","histories","programs"], "every statement kind, every sequence of entry-point calls on one parser, every pair of neighbouring statements",
 "Tests call each entry point on one isolated snippet and ignore what is left of the input.",
 ["parser/parser.go"]+PARSER+["parser/comment.go"],
 [("token look-ahead pushed back before returning","parser/*.go")],
 ["nodes and remaining input after each Parser.ParseX call, compared with the whole-file parse"])

prop("P21", "The dump command agrees with the library",
 "The dump command exits with status zero exactly when the library accepts the file under the same options and its tree was written; standard output then holds the JSON of exactly the tree (ordered, or unordered when asked) the library returns and nothing else. Otherwise (the file is rejected or cannot be read, its tree is nested too deep to be written as JSON, or standard output does not take it) the command exits non-zero with a message on standard error and prints no tree it could not complete.",
 ["inputs","configurations"], "every file (valid, invalid, empty, missing) and flag combination",
 "No test runs the command at all.",
 ["_example/dump/main.go","protoparser.go"],
 [("exit status from the run function","_example/dump/main.go")],
 ["exit status, standard output and standard error of the built command"])

prop("P22", "Derived views agree with the text they derive from",
 "A comment reports C style exactly when its text is a block comment, and its lines joined by newlines are its text without the comment markers and nothing more or less; the version of a syntax statement is the number its text names; the printed form of a position is its file name (or a placeholder when there is none), line and column; the text of an error states what was found, what was expected and, where that was recorded, the place in the code.",
 ["inputs"], "every comment text, syntax text and position obtainable from parsing",
 "Tests check a few comments; texts that contain comment markers inside or at their edges are not covered.",
 ["parser/comment.go","parser/syntax.go","parser/meta/position.go","parser/meta/error.go"],
 [("marker stripping","parser/comment.go"),("version mapping","parser/syntax.go"),("position formatting","parser/meta/position.go"),("error text","parser/meta/error.go")],
 ["results of the accessor methods on parsed trees compared with the source text"])

prop("P23", "Position arithmetic agrees with the text moved over",
 "A scanner position that is advanced over the characters of a UTF-8 text is, after each of them, the position of the next character: its byte offset, line and column (counted in characters) follow from the text alone. Reverting the last characters in reverse order, over any number of line ends, restores the earlier positions, and advancing again repeats the later ones. Advancing in bulk over a non-empty piece of the text gives the position of its last character and leaves the position it started from, copies of it and the file name as they were.",
 ["inputs","histories"], "every text and every sequence of moves over it",
 "Tests advance and revert over four short texts, one turn each; none moves in bulk or back over several lines.",
 ["lexer/scanner/position.go"],
 [("advance, revert and bulk","lexer/scanner/position.go"),("users: scanner and comments","lexer/scanner/scanner.go")],
 ["fields and printed form of positions after each move"])

prop("P24", "The lexer's readers take exactly the construct that stands there",
 "A reader of the lexer for a constant (with or without adjacent string literals merged), a full identifier, a message type, an enum type or an empty statement takes, at whatever place of whatever text it is called, exactly the construct of that kind that stands there: it returns its text without the white space and comments in between, with the position of its first character, and the next scan, in whatever mode, sees what follows. Where no such construct stands, it returns an error with a position and an expectation and no text, and does not fail otherwise.",
 ["inputs","histories"], "every text, every place in it and every order of readers and scans",
 "Tests call each reader once on some short single-construct texts; none looks at what the next scan sees after a reader, and few at errors.",
 ["lexer"],
 [("constants","lexer/constant.go"),("names and types","lexer/fullident.go"),("types","lexer/messageType.go"),("types","lexer/enumType.go"),("empty statements","lexer/emptyStatement.go")],
 ["text, position and error of each reader", "token, text and position of the scans behind"])

prop("P25", "Interpretation of any tree conserves it or reports an error",
 "Interpreting a tree, also one that a program has built or edited, either gives a result in which every element of the bodies appears exactly once, in its list and in order, or reports an error: an element of a kind that its body has no list for, or a nil element, is reported at whatever depth it stands and never dropped silently. Interpreting nil gives nil and no error. Interpretation never panics and leaves the tree as it was.",
 ["inputs","states"], "every tree of elements, well-formed or not",
 "Tests interpret a dozen hand-built bodies, each with the elements that belong there; none puts a foreign element into a body below the top.",
 ["interpret/unordered"],
 [("bodies","interpret/unordered/message.go"),("bodies","interpret/unordered/proto.go"),("entry","protoparser.go")],
 ["result and error of the interpretation", "the tree before and after"])

prop("P26", "An edit at one place of a tree shows at no other",
 "The places of the trees that parsing returns share no storage: overwriting a text, number, list element or pointer at one place of a tree, or appending to or reordering one of its lists, changes no other place of that tree, of another tree, or of a statement that the same parser returned or will return. The lists that an unordered interpretation makes are its own: editing them changes neither the tree nor another interpretation, and editing the bodies of the tree does not change them. Setting the inline comment of an element sets exactly that, and a walk then meets it once.",
 ["inputs","histories"], "every accepted file and every sequence of edits",
 "Tests compare finished trees with expected ones; none edits a tree and looks at the rest of it, so lists that share spare room or nodes used twice go unseen.",
 ["parser","interpret/unordered"],
 [("lists and nodes","parser/message.go"),("comments","parser/comment.go"),("inline comments","parser/inlineComment.go"),("lists of kinds","interpret/unordered/message.go")],
 ["every field, list and pointer of the trees before and after edits"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
