#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, statements, anchors)."""
import json
S = "crates/wolfram-parser/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": mech, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": state, "meaning": "state the property ranges over", "where": files[0]}]
    P.append({"id": "C%02d" % (len(P) + 1), "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("utf8-decode", "Bytes decode to source characters by strict UTF-8, ill-formed bytes flagged",
  "For every byte sequence, reading source characters yields exactly the strict UTF-8 decoding of the input: shortest-form scalar values, CR LF read as one newline, and each maximal ill-formed subsequence, surrogate encoding or byte-order mark read as one unsafe character that consumes exactly those bytes. The unsafe-character-encoding result is absent exactly when the input contains no ill-formed sequence, surrogate or BOM among the bytes read, and otherwise names the kind of the last one met. Reading at the end of input yields end-of-file and consumes nothing.",
  ["inputs"], "all byte sequences of any length, all options",
  "There are 2^32 four-byte prefixes with distinct accept/reject outcomes per lead byte and truncation point; tests sample about thirty of them.",
  ["read/byte_decoder.rs", "read/byte_buffer.rs", "read.rs"],
  "ByteDecoder_nextSourceCharacter and its _uncommon arm per lead byte; ByteBuffer_nextByte; Reader::setUnsafeCharacterEncodingFlag",
  "Reader{input, offset, wasEOF, unsafe_character_encoding_flag}")

p("positions", "Every token starts and ends at the source position its bytes really have",
  "For every input and every tab width of at least 1, each token's source span is the pair of positions obtained by walking the input from the start: in the line/column convention LF, CR and CR LF each start a new line at column 1, a tab moves to the next tab stop and every other character is one column; in the character-index convention every character advances the index by one (CR LF by two). Consecutive tokens share their boundary position.",
  ["inputs", "configurations"], "all byte sequences, both source conventions, all tab widths >= 1",
  "Positions accumulate over the whole history of newlines, tabs, multi-byte characters, look-ahead and back-tracking; a test fixes one file, and an off-by-one on a back-tracking path needs a specific suffix to show.",
  ["source.rs", "read.rs", "read/byte_decoder.rs", "read/character_decoder.rs", "tokenize/token.rs", "tokenize/tokenizer.rs"],
  "SourceManager newline/windowsNewline/tab/increment; Reader::mark/seek; Tokenizer::token / get_token_span",
  "Reader.SrcLoc, InputMark.src_loc, TokenStart")

p("token-lossless", "Tokens tile the input: concatenated texts reproduce it byte for byte",
  "For every input, the tokens produced one after another are non-empty, adjacent and in order, and their texts concatenate to exactly the input bytes, up to a line continuation directly before the end of input, which belongs to the end-of-file marker. Tokenizing therefore always makes progress, ends, and never loses, duplicates or invents text, whatever errors the input contains.",
  ["inputs", "configurations"], "all byte sequences (valid UTF-8 or not), all options and first-line behaviours",
  "Every lexical error path backs up by a computed amount; the combinations of look-ahead, escapes, continuations and truncation are unbounded.",
  ["tokenize/tokenizer.rs", "tokenize/token.rs", "read/character_decoder.rs", "read.rs", "source.rs", "iter.rs", "lib.rs"],
  "Tokenizer_nextToken and every Tokenizer_handle* function; Tokenizer::token; Token::skip/reset; BufferAndLength::between",
  "Tokenizer.reader (offset, SrcLoc), TokenStart")

p("char-escapes", "Character escapes decode to the documented character or fall back literally",
  "For every input, reading a Wolfram character at a backslash yields the character the escape denotes (\\:hhhh, \\.hh, \\ooo, \\|hhhhhh, \\[Name], \\b \\f \\n \\r \\t, \\\" \\\\ \\< \\>, linear-syntax punctuation) with its escape form recorded, and consumes exactly the escape's bytes; a backslash before a newline is a line continuation. An escape that is incomplete, out of range, not a scalar value or unknown yields a literal backslash and consumes only the backslash, and peeking at a character consumes nothing.",
  ["inputs"], "all byte sequences after a backslash, all options",
  "The hexadecimal, octal and name forms each have a separate failure position per digit, and raw/special code points are re-mapped after decoding; tests exercise a few of each.",
  ["read/character_decoder.rs", "read/wl_character.rs", "read/code_point.rs", "long_names.rs", "utils.rs"],
  "CharacterDecoder_nextWLCharacter, CharacterDecoder_handleLongName / handle4Hex / handle2Hex / handleOctal / handle6Hex / handleBackslash",
  "Reader.offset")

p("totality", "Tokenizing and concrete parsing never panic, overflow or loop on any input",
  "For every byte sequence and every option setting with a tab width of at least 1, tokenizing and parsing to concrete syntax return normally: no assertion failure, out-of-range index or slice, arithmetic overflow, invalid character conversion or endless loop. Inputs are limited only by the 32-bit position counters and by stack depth for nested expressions.",
  ["inputs", "configurations"], "all byte sequences, all options, inputs below the position-counter limit",
  "The crash corpus in the tests holds the crashes already met; the statement is about every other input.",
  ["tokenize/tokenizer.rs", "tokenize/token.rs", "read.rs", "read/byte_decoder.rs", "read/character_decoder.rs", "source.rs", "error.rs", "parse.rs", "parse/parselet.rs", "parse_cst.rs"],
  "assert!/unwrap/index/slice/cast sites of the reading and tokenizing layers; loops of the tokenizer; error recovery in error.rs")

p("numbers", "Number literals are read as the longest literal of the number grammar",
  "For every input that starts with a digit or with a dot and a digit, the token covers exactly the number literal of the Wolfram grammar (digits, base^^digits, fraction, precision or accuracy mark with optional sign and digits, *^ exponent) and is classified Integer, Rational or Real accordingly. Text that only looks like a continuation, such as `..`, `^` without a second `^`, `*` without `^`, or a sign with no digits after it, is left to the following token. (Literals interrupted by line continuations are not included.)",
  ["inputs"], "all byte sequences following a digit or dot",
  "Each optional part has its own look-ahead and back-up; the product of parts and truncations is far larger than the tests' list.",
  ["tokenize/tokenizer.rs"],
  "Tokenizer_handleNumber, handleDigits, handleAlphaOrDigits, handlePossibleFractionalPart, handleDot")

p("delimiters", "Strings end at the first unescaped quote, comments at the matching closer",
  "For every input, a string token runs from a double quote to the next double quote that is not part of an escape, and a comment token runs from (* to the *) that balances it, nested comments included, both across lines. If no such closer exists the token extends to the end of input and is marked unterminated; nothing inside a string or comment is tokenized on its own.",
  ["inputs"], "all byte sequences following a double quote or (*",
  "Nesting depth and escape parity are unbounded; tests sample depth at most two.",
  ["tokenize/tokenizer.rs", "read/byte_decoder.rs"],
  "Tokenizer_handleString, Tokenizer_handleComment (depth counter), openParen dispatch")

p("newline-policy", "A newline ends an expression only outside every bracket",
  "For every input, a newline outside all groups is reported as a top-level newline, which ends the operand or expression before it (only a chain of infix operators that has already started may go on in the next line), and a newline inside any open group is reported as an internal newline and never ends an expression; leaving a group restores the behaviour outside it. The one exception is the file name after << >> >>>, which has to be on the operator's line everywhere.",
  ["inputs", "histories"], "all inputs, all nestings and unbalanced sequences of brackets",
  "The policy depends on the whole history of brackets opened and closed, including mismatched and missing ones.",
  ["tokenize/tokenizer.rs", "source.rs", "parse/parselet.rs", "parse.rs"],
  "Tokenizer::peek_token_with / next_token (insideGroup bit), GroupStack push/pop in group parselets, Tokenizer_handle newline arm",
  "Tokenizer.GroupStack, NextPolicy")

p("cst-lossless", "The concrete syntax tree's leaves are the input, in order",
  "For every input, the leaves of the concrete syntax trees of the parsed sequence, read left to right and without the zero-width implicit tokens, are the input's tokens: their texts concatenate to the input (up to a line continuation directly before the end of input) and each leaf's text is the slice its span denotes. Only input with an unterminated token, or with a group still open at the end of input, where error recovery re-reads and truncates, is excepted.",
  ["inputs", "configurations"], "all byte sequences, all options",
  "Each of the about three hundred parselets moves tokens between tokenizer, trivia buffers and the node stack; a token dropped or pushed twice needs the one parselet and trivia pattern where it happens.",
  ["parse.rs", "parse/parselet.rs", "parse/token_parselets.rs", "parse_cst.rs", "lib.rs", "error.rs"],
  "ParseCst push_leaf*/reduce*/push_trivia; ParserSession eat_trivia*; Token::skip/reset",
  "ParseCst.node_stack, ParserSession.trivia, Tokenizer.reader.offset")

p("cst-spans", "Node spans enclose their children, in order and without overlap",
  "For every input without an unterminated token and without a group still open at the end of input, the span of each concrete or aggregate syntax node starts where its first child starts and ends where its last child ends, and the children's spans follow one another without overlap. Hence a node found by position is always found inside its parent.",
  ["inputs"], "all byte sequences, all options",
  "Spans are recomputed on every node from its children; a wrong end is invisible unless a test prints that node's source.",
  ["cst.rs", "source.rs", "parse_cst.rs"],
  "Cst::source / CstSeq source computation, Span::new/from_location, ParseCst::reduce", "node_stack")

p("precedence", "Operator precedence and associativity decide how operands group",
  "Whether an operator's right operand absorbs the following operator is decided by one total order on precedence values in which, at equal rank, right-associative operators continue and left-associative ones stop; an operator expression therefore groups as the documented precedence table says. An infix operator of the same head as the chain it follows joins that chain.",
  ["inputs", "programs"], "all pairs of precedence values; all operator expressions",
  "There are over a hundred operators and hence over ten thousand ordered pairs, each also depending on context.",
  ["precedence.rs", "generated/precedence_values.rs", "parse/token_parselets.rs", "parse.rs", "parse/parselet.rs"],
  "Precedence::greater and the loop of ParserSession::parse_infix/parse_climb; precedence constants; InfixParselet::getPrecedence")

p("span-algebra", "Positions are totally ordered and spans obey interval laws",
  "Source positions of one convention are totally ordered, lexicographically by line then column or by index, and a span built from two positions returns exactly these as its start and end. Containment and overlap tests, span construction and the next/previous position operations agree with that order for all values.",
  ["inputs"], "all pairs of 32-bit positions and spans",
  "Positions range over 2^64 values; tests use a dozen of them.",
  ["source.rs"],
  "impl Ord/PartialOrd for LineColumn, Location; Span::new/start/end; LineColumnSpan/CharacterSpan accessors; Location::next/previous")

p("token-kinds", "Token kinds are distinct and their class predicates agree with the kind table",
  "Every token kind has its own value, and the predicates on kinds (trivia, trivia other than a top-level newline, empty, error, unterminated, closer, possible beginning of an expression) hold for exactly the kinds documented to be in that class. Every opening bracket kind has exactly one closing kind and the two maps are inverse to each other.",
  ["inputs"], "all token kinds and all bracket kinds",
  "Predicates are bit tests on packed numbers, so adding or reordering a kind silently changes classes elsewhere; the tests check a few.",
  ["tokenize/token_kind.rs", "parse/parselet.rs", "parse.rs"],
  "TokenKind::is*/encode masks; GroupOpenerToCloser, TokenToCloser")

p("char-classes", "Letters, digits, spaces and newlines are classified consistently",
  "For every Unicode scalar value and every special code point, the character-class tests used for tokenizing are mutually consistent: digit values are the numeric values for their base, no character is at once letter-like and space-like or newline-like, and an escaped raw character is classified as the character it denotes. Each documented character name finds its character, no other name is known, and each character with a name other than a \\[Raw...] one finds exactly that name.",
  ["inputs"], "all 0x110000 code points and all special code points, all table names",
  "The tables hold about a thousand entries looked up by binary search; a misplaced entry hides only the names around it.",
  ["read/wl_character.rs", "read/code_point.rs", "long_names.rs", "generated/long_names_registration.rs", "utils.rs"],
  "WLCharacter::is*, LongNames::is*, longname_to_character / CodePointToLongNameMap lookups, toDigit/digit tables")

p("issues", "Issues are recorded once each, in order, with the fatal list capped",
  "For every sequence of reported issues, the recorded lists contain each distinct issue exactly once in order of first report, fatal ones apart from the others, and at most ten fatal issues are kept. Recording an issue never changes what is tokenized or parsed.",
  ["inputs", "histories"], "all sequences of issues",
  "It is a statement about every history of reports, including repeats caused by re-reading the same characters during look-ahead.",
  ["read.rs", "issue.rs"], "Reader::addIssue", "Reader.fatal_issues, Reader.non_fatal_issues")

p("print-roundtrip", "Printing a character and reading it back gives the same character",
  "For every input of well-formed UTF-8 without byte-order marks, printing the source characters read from it reproduces it exactly. Every Wolfram character the reader produces prints as text that reads back as the same character in the same escape form (hexadecimal, octal, named, single-character escape), except that a \\[Raw...] character prints as the plain character it denotes; unsafe characters print as U+FFFD.",
  ["inputs"], "all Unicode scalar values, all special code points, all escape forms, all inputs",
  "There are a million code points in eight escape forms; tests print a dozen.",
  ["byte_encoder.rs", "source.rs", "read/wl_character.rs", "read/code_point.rs"],
  "encodeBytes; Display for SourceCharacter and WLCharacter; fromDigit")

p("aggregate", "Aggregation removes exactly the trivia and nothing else",
  "For every concrete syntax tree, the aggregate tree has the same nodes in the same order with every whitespace, newline, comment and other trivia token removed and nothing else removed, added or reordered, and with each remaining node's source unchanged.",
  ["inputs"], "all concrete syntax trees",
  "The property is over all trees; tests check particular ones.",
  ["agg.rs", "abstract_cst.rs", "cst.rs"], "aggregate_cst / aggregate_cst_seq and their per-node arms")

p("trivia-insensitive", "Whitespace and comments between tokens do not change the abstract syntax",
  "Replacing one piece of trivia between two tokens by another, where it does not change the tokens themselves, leaves the abstract syntax tree the same up to source positions.",
  ["programs"], "all programs and all re-spacings",
  "It relates two runs on different inputs.",
  ["parse.rs", "parse/parselet.rs", "abstract_cst.rs"], "trivia handling in the parselets and in aggregation")

p("options-positions-only", "Source convention and tab width change positions and nothing else",
  "For every input, two runs that differ only in source convention or tab width produce trees that differ only in source positions.",
  ["configurations"], "all inputs, all pairs of option settings",
  "It relates two runs under different options.",
  ["lib.rs", "read.rs", "source.rs"], "ParseOptions plumbing; SourceManager")

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
