#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mechanism,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
            mechanism=[dict(name=n,where=w) for n,w in mechanism],observe_at=observe or [],hook_needed=None)))

PARSER=["parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","parser/field.go","parser/mapField.go","parser/groupField.go","parser/option.go","parser/reserved.go","parser/extensions.go","parser/declaration.go","parser/import.go","parser/package.go","parser/syntax.go","parser/edition.go"]

prop("C01","Parse accepts exactly the documented grammar",
 "For every UTF-8 input, Parse succeeds if and only if the whole input is one proto file of the documented editions/proto2/proto3 grammar (plus, in permissive mode only, the documented relaxations: aggregate and list option constants, adjacent string literals, a leading dot in a parenthesised option name, and one semicolon after a closing brace). A malformed, incomplete or surplus token anywhere makes Parse fail: it is never skipped, swallowed by a neighbouring statement or read as an empty statement.",
 ["inputs","configurations"],"all inputs, in strict and in permissive mode",
 "Tests hold about 200 hand-written inputs, almost all valid; the accept/reject frontier is a language over unbounded token sequences, and the lookahead/put-back code behaves differently after every partial match.",
 PARSER+["lexer/constant.go","lexer/fullIdent.go","lexer/messageType.go"],
 [("statement dispatch and ordered-choice fallback","parser/message.go, parser/enum.go, parser/extend.go default branches"),("lookahead by put-back","lexer/lexer.go UnNext/UnNextTo/PeekN"),("group lookahead","parser/groupField.go peekIsGroup")],
 observe=["protoparser.Parse: err == nil"])

prop("C02","The tree contains every declaration, exactly as written",
 "A successful Parse returns a tree holding every declaration of the input exactly once, in source order and under the block it was written in, and nothing else. Each node carries precisely its own names, types, labels, modifiers, streaming flags, numbers, ranges, reserved names, versions and option names as written; none is dropped, duplicated, defaulted, truncated or moved to a neighbour.",
 ["inputs","configurations"],"all accepted inputs, in strict and permissive mode: any number and order of statements, any nesting depth, any identifier",
 "Tests compare a few excerpt files; they do not reach combinations of neighbouring statements, repetition counts, nestings and optional parts, where a leaked variable or a skipped token shows.",
 PARSER,
 [("per-construct recursive-descent functions building the node","parser/*.go Parse*"),("body loops appending statements in order","parser/proto.go parseProtoBody, parser/message.go parseMessageBody")],
 observe=["*parser.Proto returned by Parse"])

prop("C03","Literal and option constants keep their value",
 "Every constant in the tree denotes the same value as the source literal: a single literal, number, boolean or identifier is reproduced character for character (including sign, radix, exponent and every escape), adjacent string literals in permissive mode become one well-formed literal whose decoded bytes are the concatenation of the decoded pieces, and aggregate and list constants keep every key, separator and element in order.",
 ["inputs","configurations"],"all constants in all positions that take one: file, message, enum, service, rpc, oneof, field, map field, enum value options, import locations, reserved names, extension declarations",
 "Tests use about forty literals; escapes next to quotes, mixed quote kinds, split escapes and nested aggregates form an unbounded space of character sequences.",
 ["lexer/constant.go","parser/option.go","lexer/scanner/strLit.go","lexer/scanner/numberLit.go"],
 [("literal scanning","lexer/scanner/strLit.go, lexer/scanner/numberLit.go"),("adjacent string merging","lexer/constant.go mergeMultilineStrLit"),("aggregate and list assembly","parser/option.go parseCloudEndpointsOptionConstant, parseOptionConstants")],
 observe=["Option.Constant, FieldOption.Constant, EnumValueOption.Constant, Import.Location, Reserved.FieldNames"])

prop("C04","Every reported source position is exact",
 "For every UTF-8 input, each node's start position is that of the first character of its first token and its last position is that of its last character (including the optional semicolon absorbed after a closing brace in permissive mode); byte offset, line and column always describe the same character of the input and the configured filename is stamped on all of them. Comments, blank lines, CRLF, multi-byte characters, a byte order mark and any amount of preceding lookahead do not shift positions.",
 ["inputs","configurations"],"all accepted UTF-8 inputs; all layouts",
 "Tests check positions on a few ASCII layouts; the position is maintained incrementally through put-back and re-reading, so errors only show after particular sequences of newlines, wide characters and lookahead.",
 ["lexer/scanner/position.go","lexer/scanner/scanner.go","lexer/lexer.go","parser/meta/position.go"]+PARSER,
 [("incremental advance/revert of a shared position","lexer/scanner/position.go"),("start/last position capture in each construct","parser/*.go")],
 state=[("columns","column at the end of each finished line, shared by position copies","lexer/scanner/position.go")],
 observe=["Meta.Pos and Meta.LastPos of every node and comment"])

prop("C05","Comments are kept once, verbatim, on the right element",
 "Every comment before a declaration is a leading comment of that declaration; the first comment starting on the line where a declaration (or an opening brace or bracket) ends is its inline comment; comments between the tokens of an rpc header are its embedded comments. With body comments enabled, a comment left over before an empty statement, a closing brace or the end of file becomes an element of the enclosing file, message, group, enum, extend or service body at its place; without it, it is dropped; texts and order are verbatim and no comment appears twice or on another element (other comments inside a declaration, and left-over ones in oneof and rpc blocks, have no place in the tree).",
 ["inputs","configurations"],"all placements of line and block comments between declarations and at line ends, with body comments on and off",
 "Tests place comments in some twenty fixed spots; attachment depends on line numbers, look-ahead that scans comments repeatedly, and the kind of both neighbours, for every pair of statements.",
 ["parser/comment.go","parser/inlineComment.go","lexer/scanner/comment.go","lexer/lexer.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","parser/proto.go","parser/extensions.go"],
 [("leading comments","parser/comment.go ParseComments"),("inline comments","parser/inlineComment.go"),("embedded rpc comments","lexer/lexer.go FindMidComments, lexer/scanner/scanner.go GetScannedComments")],
 state=[("scanned comments","every comment scanned so far, possibly more than once","lexer/scanner/scanner.go")],
 observe=["Comments, InlineComment, InlineCommentBehindLeftCurly/LeftSquare, EmbeddedComments, *parser.Comment body elements"])

prop("C06","Layout never changes the meaning",
 "Rewriting the white space and comments between two tokens of an input (adding, removing or replacing them while the tokens stay separate) changes neither acceptance nor anything in the tree except positions and attached comments.",
 ["inputs"],"all accepted and rejected token sequences, every gap between tokens, every kind of white space and comment, in strict and permissive mode",
 "Tests use conventional layouts; each gap is crossed by a different mixture of look-ahead and put-back, so every gap of every construct has to be tried.",
 ["lexer/scanner/scanner.go","lexer/scanner/comment.go","lexer/lexer.go"]+PARSER,
 [("white space and comment skipping inside token scanning","lexer/scanner/scanner.go scan"),("put-back of skipped text","lexer/scanner/scanner.go UnScan")],
 observe=["Parse result modulo positions and comments"])

prop("C07","Parse is total: it always returns, with a tree xor an error",
 "For every byte sequence and every option combination Parse returns after finitely many steps without panicking, with either a non-nil tree and a nil error or a nil tree and a non-nil error. A returned tree contains no nil or foreign element in any body, so visiting it, interpreting it and encoding it as JSON all work.",
 ["inputs","configurations"],"all byte strings (including invalid UTF-8, NUL and truncated input) and all option combinations",
 "Tests try a handful of malformed inputs; a panic or an endless loop needs one particular stop point in one construct, and malformed inputs are unbounded.",
 PARSER+["lexer/lexer.go","lexer/scanner/scanner.go","protoparser.go"],
 [("EOF detection","lexer/scanner/eof.go, lexer/scanner/scanner.go read/peek"),("loop exits on unexpected token","parser/*.go body loops")],
 observe=["Parse return values, panics, termination; Accept/UnorderedInterpret/json.Marshal on the result"])

prop("C08","Success means the whole input was read and parsed",
 "If the reader fails with an error other than end-of-file at any point, Parse reports an error instead of a tree, whatever had been read before; a successful tree always accounts for every byte the reader would have delivered up to its end-of-file. NUL and other unusual bytes never act as an end of input.",
 ["fault_sequences","inputs"],"all read-failure points of all inputs, all truncation points, all positions of unusual bytes",
 "No test uses a failing reader; the fault has to strike at every byte offset, in particular exactly between two declarations.",
 ["lexer/scanner/scanner.go","lexer/scanner/eof.go","lexer/lexer.go","parser/proto.go"],
 [("rune reading and the end-of-input marker","lexer/scanner/scanner.go read/peek, lexer/scanner/eof.go"),("end-of-file decision","parser/proto.go parseProtoBody, lexer/lexer.go IsEOF")],
 observe=["protoparser.Parse(failing reader)"])

prop("C09","The result does not depend on how the reader delivers bytes",
 "Parsing the same bytes through any reader that respects the io.Reader contract (any split into short reads, also inside a multi-byte character or a token, empty reads, end-of-file together with or after the last data) gives the same tree, positions and comments, or an error at the same position.",
 ["inputs","fault_sequences"],"all ways of cutting the input into reads, and all sizes around the internal buffer size",
 "Tests read from in-memory strings which deliver everything in one read; short reads, buffer-boundary crossings and data-with-EOF reads never occur.",
 ["lexer/scanner/scanner.go","protoparser.go"],
 [("buffered rune reader","lexer/scanner/scanner.go NewScanner/read")],
 state=[("put-back buffer","runes returned to the input by lookahead","lexer/scanner/scanner.go lastReadBuffer")],
 observe=["protoparser.Parse over a controlled reader"])

prop("C10","Calls are independent: history and concurrency have no effect",
 "What Parse, UnorderedInterpret and visiting produce depends only on their arguments: earlier calls (successful or failed, with any options) and calls running concurrently on other goroutines, under any interleaving, neither change the result nor touch trees already returned. Visiting and interpreting never modify the tree.",
 ["schedules","histories"],"all interleavings of concurrent calls at read and visit boundaries; all histories of earlier calls; data races",
 "Tests call each function once, alone, per input; shared scratch state shows only when two calls interleave mid-token or when a failed call precedes another.",
 ["protoparser.go","lexer/lexer.go","lexer/scanner/scanner.go","lexer/scanner/token.go","lexer/scanner/position.go","parser/field.go","parser/mapField.go","interpret/unordered/proto.go"],
 [("all state in per-call values; package-level tables are read only","protoparser.go Parse, parser/field.go typeConstants")],
 observe=["results of overlapping and successive calls; race detector"])

prop("C11","Every failure names the exact place where the input goes wrong",
 "Every error returned for a malformed input carries (itself or in its chain) the typed parse error, stamped with the configured filename and with an offset, line and column that agree with each other and lie inside the input. The position lies no later than the first token that cannot continue any valid file and no earlier than the end of the token before it.",
 ["inputs","configurations"],"all rejected UTF-8 inputs, in strict and permissive mode, with and without a filename",
 "Tests only check that an error is returned; none looks at where it points.",
 ["parser/error.go","lexer/error.go","lexer/scanner/error.go","parser/meta/error.go","parser/message.go","parser/enum.go","parser/extend.go","parser/reserved.go"],
 [("typed error built from the current token","parser/error.go unexpected, lexer/error.go unexpected"),("composite errors of ordered choices","parser/message.go, parser/enum.go, parser/extend.go, parser/reserved.go")],
 observe=["errors.As(err, *meta.Error) and its Pos"])

prop("C12","Options change only what they document",
 "Everything accepted in strict mode is accepted in permissive mode with the same tree, except that a semicolon after a closing brace is absorbed by the block. Debug mode changes no result; the filename only changes the filename in positions and metadata; body comments only adds comment elements, so removing those gives the tree parsed without it; options act independently of each other and of the order in which they are given, and the defaults are permissive, no debug, no body comments, no filename.",
 ["inputs","configurations"],"all option combinations and orders, on all inputs",
 "Tests exercise each option on one or two inputs and never debug mode or the top-level entry point.",
 ["protoparser.go","parser/parser.go","lexer/lexer.go","lexer/scanner/scanner.go"]+["parser/option.go","parser/message.go","parser/enum.go","parser/service.go","lexer/constant.go"],
 [("option plumbing","protoparser.go Parse"),("mode tests","parser/*.go p.permissive, p.bodyIncludingComments")],
 observe=["Parse under pairs of configurations"])

prop("C13","Visiting reaches every element once, and stops where told",
 "Accept calls the visitor exactly once for every declaration and every attached comment of the tree, an element before its contents, body elements and statements in source order; when the visitor answers false for an element, exactly that element's contents and comments are skipped and the rest of the traversal is unchanged.",
 ["inputs","histories"],"all trees and all patterns of visitor answers",
 "The existing test visits five hand-built trees with a visitor that always answers true.",
 ["parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","parser/groupField.go","parser/extensions.go","parser/declaration.go","parser/option.go","parser/field.go","parser/mapField.go","parser/reserved.go","parser/comment.go","parser/emptyStatement.go","parser/visitor.go"],
 [("double dispatch","parser/*.go Accept")],
 observe=["sequence of Visitor callbacks"])

prop("C14","Unordered interpretation loses and invents nothing",
 "For every tree Parse returns, the unordered interpretation succeeds and is a partition of it: each block's elements are sorted into the list of their kind, every element once, in source order within a kind, recursively for nested messages, enums, extends and services, with names, comments, positions, syntax and edition carried over. It does not modify the tree; a nil argument gives nil, and a body element of a foreign kind gives an error.",
 ["inputs"],"all trees, from parsing and hand-built, with any order and multiplicity of element kinds and all parse options",
 "Tests interpret a few hand-built values; not every kind occurs in every body, and none comes from Parse.",
 ["interpret/unordered/proto.go","interpret/unordered/message.go","interpret/unordered/enum.go","interpret/unordered/service.go","interpret/unordered/extend.go","protoparser.go"],
 [("type switch per body","interpret/unordered/*.go interpret*Body")],
 observe=["protoparser.UnorderedInterpret, unordered.Interpret*"])

prop("C15","Lexer lookahead is perfectly reversible",
 "After any sequence of advancing in any token mode, peeking any number of tokens, conditional consumption and putting back what was last read (one token, or several saved raw texts in reverse order), the lexer behaves as a cursor over the text: putting back restores exactly the earlier place, and what is read next, in any mode, is what would have been read there at first, with the same kind, text, raw text and position. The comments passed on the way, by whatever route, are remembered once each, in source order with their positions, and found between any two places.",
 ["histories","inputs"],"all operation sequences up to a depth, from every point of the input, over texts that mix all token kinds, comments and newlines",
 "Tests put back one identifier once; put-back across modes, newlines, comments, failed literals and several tokens is a property of operation sequences.",
 ["lexer/lexer.go","lexer/scanner/scanner.go","lexer/scanner/position.go"],
 [("put-back buffer","lexer/scanner/scanner.go UnScan/unread, lexer/lexer.go UnNext/UnNextTo/PeekN/ConsumeToken")],
 state=[("last scan raw","characters consumed by the latest scan","lexer/scanner/scanner.go lastScanRaw")],
 observe=["lexer.Lexer Token/Text/RawText/Pos"])

prop("C16","Scanning splits text into tokens by the lexical grammar",
 "In every mode, scanning any UTF-8 text yields the tokens of the documented lexical grammar by longest match: identifiers, keywords, integer, octal, hex and float literals, booleans, quoted strings with escapes, comments and punctuation, each with its exact text, kind and start position, skipping only white space and (unless asked for) comments. The raw texts of the successive tokens concatenate to the input, and a malformed literal or comment is an error, not another token, whose position lies inside what was read of it, with offset, line and column that agree. Reading through the lexer gives the same tokens, and reports a malformed one exactly once: to the error handler, and as the latest error.",
 ["inputs","configurations"],"all character sequences, all combinations of token modes",
 "Tests scan about fifty fixed strings in matching modes.",
 ["lexer/scanner/scanner.go","lexer/scanner/numberLit.go","lexer/scanner/strLit.go","lexer/scanner/comment.go","lexer/scanner/ident.go","lexer/scanner/token.go","lexer/scanner/lettersdigits.go","lexer/scanner/mode.go"],
 [("token classification by first character and mode","lexer/scanner/scanner.go scan")],
 observe=["scanner.Scanner.Scan, LastScanRaw"])

prop("C17","A declaration parses the same alone as inside any file",
 "What a declaration parses to depends only on its own text: parsing it alone through the exported per-construct entry points, or inside any file after and before any other declarations, gives the same node up to a shift of positions. A per-construct call consumes exactly its construct, so the next call continues with the following one, and a file or body made of declarations that parse alone, where the grammar allows them, parses as a whole whatever their number and order.",
 ["inputs","histories"],"all declarations, all neighbours, all entry points",
 "Tests run entry points on single constructs and never compare them with whole-file parsing or call several in a row.",
 PARSER+["parser/parser.go"],
 [("recursive descent without cross-statement state","parser/*.go")],
 observe=["parser.Parser.ParseProto versus ParseMessage, ParseEnum, ParseService, ParseExtend, ParseOption, ..."])

prop("C18","Lexer construct readers take exactly one construct",
 "Reading a full identifier, a message or enum type, a constant or an empty statement from the lexer succeeds exactly on that construct of the documented grammar, returns its exact text and start position, and leaves the lexer on the next token; it otherwise returns an error.",
 ["inputs","configurations"],"all token sequences, from any starting point, with and without adjacent string merging",
 "Tests give each reader three to ten inputs, mostly consisting of just the construct.",
 ["lexer/fullIdent.go","lexer/messageType.go","lexer/enumType.go","lexer/constant.go","lexer/emptyStatement.go"],
 [("token loops with one-token put-back","lexer/fullIdent.go, lexer/messageType.go, lexer/constant.go")],
 observe=["lexer.Lexer.ReadFullIdent/ReadMessageType/ReadEnumType/ReadConstant/ReadEmptyStatement"])

prop("C19","Position arithmetic is exact and reversible",
 "Advancing a position over any text gives the byte offset, line and column of the character after it; reverting the same characters in reverse order, in any mixture with further advances, restores every earlier position exactly; computing the last position of a text in one step gives the position of its last character and leaves the original position usable and unchanged.",
 ["histories","inputs"],"all sequences of advance and revert steps over characters of every byte length and newlines",
 "Tests advance and revert four short fixed sequences and never mix the two or use the bulk operation.",
 ["lexer/scanner/position.go","parser/meta/position.go"],
 [("per-line column memory","lexer/scanner/position.go Advance/Revert/AdvancedBulk")],
 state=[("columns","line number to last column","lexer/scanner/position.go")],
 observe=["scanner.Position values"])

prop("C20","Derived accessors agree with the raw text",
 "For every comment, the style test tells block from line comments and the lines accessor returns exactly the text without its delimiters, split at newlines; for every parsed syntax statement the version accessor gives the number in the version text, and the quoted forms of syntax and edition are the literals as written; a position prints as filename (or a placeholder), line and column.",
 ["inputs"],"all comments, syntax and edition statements and positions",
 "Tests cover two comments and two positions.",
 ["parser/comment.go","parser/syntax.go","parser/edition.go","parser/meta/position.go"],
 [("prefix/suffix trimming","parser/comment.go Lines")],
 observe=["Comment.IsCStyle/Lines, Syntax.Version/ProtobufVersionQuote, Edition.EditionQuote, Position.String"])

prop("C21","Errors say truthfully what was found and expected",
 "The text a parse error says was found is the source text at the error's position, or of the first token behind it (nothing only at the end of input or where a literal is malformed), and a position it prints is its own. Where it names an expected token or kind of token, a file could go on with one there. The message names both, at whatever depth and with whatever options the error arises.",
 ["inputs","configurations"],"all rejected inputs, all error sites, after any amount of put-back lookahead",
 "Tests look at whether there is an error, hardly at what it says; a message is built from the lexer's last token, which put-back may have made stale.",
 ["parser/error.go","lexer/error.go","lexer/scanner/error.go","parser/meta/error.go"]+PARSER,
 [("errors built from the current token","parser/error.go unexpected, lexer/error.go unexpected, lexer/scanner/error.go unexpected")],
 observe=["meta.Error.Found, Expected, Pos and Error(), in the chain of the error Parse returns"])

prop("C22","The JSON form says all the tree says",
 "For every tree Parse returns and its unordered interpretation, JSON encoding gives every exported field of every node under its own name with its value, lists in order and null for what is absent, and nothing else; an unordered tree without groups and nested extends decodes into an equal one. The dump tool prints exactly that for each setting of its flags and exits with 0, and for a missing or malformed file prints nothing to its output and exits with 1.",
 ["inputs","configurations"],"all accepted inputs, both trees, all flag settings",
 "No test encodes more than a field or runs the tool.",
 ["parser/parser.go","interpret/unordered/proto.go","interpret/unordered/message.go","_example/dump/main.go"],
 [("plain exported structs encoded by encoding/json","parser/*.go, interpret/unordered/*.go")],
 observe=["json.Marshal of parser.Proto and unordered.Proto, output and exit status of _example/dump"])

prop("C23","Each exported per-construct function accepts exactly its construct",
 "Called at any place, each exported per-construct function (ParseSyntax, ParseEdition, ParseImport, ParsePackage, ParseOption, ParseMessage, ParseEnum, ParseService, ParseExtend, ParseField, ParseMapField, ParseOneof, ParseGroupField, ParseReserved, ParseExtensions, ParseDeclaration) succeeds exactly when one construct of its kind in the documented grammar starts there, whatever follows it: it returns its node with every field and position, and leaves the next token to be read next. Otherwise it returns no node and a typed error placed where the construct goes wrong; only an absent syntax or edition statement is no error. Between constructs, ParseComments returns exactly the comments before the next token, MaybeScanInlineComment sets exactly the next one if it starts on the line of the last token, and IsEOF tells whether a token is left.",
 ["inputs","configurations"],"all starting places in all valid and invalid inputs, under the options that change what a construct is",
 "Tests give each function a few inputs consisting of just the construct and do not look at the place of the error or at what is left.",
 PARSER,
 [("leading keyword checked again by the function after the caller's peek","parser/message.go, parser/enum.go, parser/service.go, parser/reserved.go, ...")],
 observe=["return values of the exported Parse functions of parser.Parser and the lexer's next token"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
    print("valid",len(P))
except ImportError: print("no jsonschema")
