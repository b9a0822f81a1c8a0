#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the entries stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=[observe], hook_needed=None)))
LEX="src/lexer.rs"; PAR="src/parser.rs"; TOK="src/token.rs"; LIB="src/lib.rs"; CST="src/cst.rs"
p("P01","tokenize is total: tokens or a structured error, never a crash or hang",
  "For every input string, `tokenize` terminates and either returns an array of tokens or throws a plain {line, column, message} object. It never panics (a wasm trap that leaves the module unusable) and never loops.",
  ["inputs"],"every string given to tokenize",
  "The lexer tests run a handful of well-formed inputs; a panic hides behind one specific character at one specific position (first character, last character, next to EOF).",
  [LEX,LIB],[("Lexer::next_token / read_* cursor loops",LEX),("tokenize entry point",LIB)],"result of the exported tokenize function")
p("P02","Tokens are the source text: nothing lost, altered or misplaced",
  "When tokenize succeeds, the tokens are in source order, each token's literal is exactly the source text that starts at its 1-based line and column (columns counted in characters, lines separated by \\n), the text between consecutive tokens is whitespace only, and the list ends with exactly one end-of-input token with an empty literal. Line comments only lose trailing whitespace.",
  ["inputs"],"every string that tokenize accepts, including multi-line tokens and non-ASCII text",
  "Tests compare a few hand-written token lists; line/column bookkeeping has to be right after every kind of token, newline and multi-byte character.",
  [LEX,TOK],[("next_char line/column bookkeeping",LEX),("construct_token",LEX)],"token list returned by tokenize")
p("P03","Token boundaries follow GoogleSQL's lexical rules",
  "Tokenize splits its input exactly as the lexical rules say: identifiers, numbers, back-quoted names, single- and triple-quoted strings with backslash escapes, `--`, `#` and `/* */` comments, @ and @@ parameters, {}-templates, and longest-match operators (|| |> << <= <> >> >= => !=), where > closes ARRAY< / STRUCT< types one at a time instead of forming >> or >=.",
  ["inputs"],"every string over the lexically relevant characters",
  "Boundary decisions depend on combinations of adjacent characters (backslash runs before a quote, quote runs, * and / runs in comments, nested type brackets); examples cannot cover the combinations.",
  [LEX],[("next_token dispatch",LEX),("read_string, read_multiline_string, read_multiline_comment, read_number, read_parameter",LEX),("type_declaration_depth",LEX)],"token list returned by tokenize")
p("P04","Lexing fails only on unterminated or malformed tokens, at the right place",
  "Tokenize throws if and only if a quoted string, back-quoted name, block comment or template is not terminated, or a parameter has no name. The error's line and column are the position where the scan had to stop: end of input for an unterminated token, the offending character for a bad parameter name.",
  ["inputs"],"every string that tokenize rejects, and every string it must not reject",
  "Tests contain almost no rejected inputs and do not check error positions.",
  [LEX,"src/error.rs"],[("next_char EOF error",LEX),("read_identifier error",LEX)],"error thrown by tokenize and by parse")
p("P05","parse is total: a tree or a structured error, never a crash or hang",
  "For every input string, including truncated and malformed SQL, `parse` terminates and either returns an array of nodes or throws a plain {line, column, message} object. It never panics and never loops.",
  ["inputs"],"every string given to parse: every statement kind with any token missing, replaced or added, and input ending at any token",
  "Tests parse valid statements; a crash needs a particular token (or the end of the input) at a particular point of a particular statement.",
  [PAR,TOK,LIB],[("Parser lookahead get_token / get_offset_index",PAR),("parse_identifier, parse_expr, statement parsers",PAR),("parse entry point",LIB)],"result of the exported parse function")
p("P06","Every source token appears exactly once in the tree",
  "When parse succeeds, the non-comment tokens occurring in the returned tree are exactly the non-comment tokens tokenize returns for the same text (apart from end-of-input): each appears exactly once, with its literal, line and column unchanged.",
  ["inputs"],"every string that parse accepts",
  "A token is dropped or duplicated only for a particular combination of optional clauses; tests fix one snapshot per clause.",
  [PAR,CST],[("construct_node / push_node / push_node_vec",PAR),("children map keyed by name (a second push under the same key replaces the first)",CST)],"tree returned by parse")
p("P07","Every comment is kept exactly once, attached to its neighbouring token",
  "When parse succeeds, every comment of the source appears exactly once in the tree: a comment that starts on the line where the preceding non-comment token starts is in that token's trailing_comments, and every other comment is in the leading_comments of the next token (the EOF node's when none follows), in source order. Once one comment after a token has started a new line, the later ones belong to the next token.",
  ["inputs"],"every accepted string and every placement of line and block comments between its tokens",
  "Comment handling is exercised by a few examples, but each grammar rule that moves a node, re-creates it or looks ahead is a chance to lose a comment at that one place.",
  [PAR],[("leading_comment_indices / trailing_comment_indices",PAR),("next_token, construct_node",PAR)],"leading_comments / trailing_comments children in the tree")
p("P08","Subtrees cover contiguous source ranges, and lists keep source order",
  "In a returned tree, the tokens of every node's subtree form one contiguous run of the source's non-comment tokens, the elements of every node list are in source order, and top-level nodes follow each other in source order.",
  ["inputs"],"every string that parse accepts",
  "Snapshot tests only see the fixed examples; a node attached to the wrong parent shows up only for a particular clause combination.",
  [PAR,CST],[("push_node / push_node_vec in every statement parser",PAR)],"tree returned by parse")
p("P09","Keywords are case-insensitive",
  "Changing the letter case of keywords or any other unquoted words of the input changes nothing in the result of parse except the case of the literals themselves: the same shape, node types, child names, positions, or the same error position.",
  ["inputs"],"every statement and every upper/lower-case spelling of its unquoted words",
  "Tests are written in one spelling; a comparison without case folding is invisible until somebody writes that keyword in another case.",
  [PAR,TOK],[("Token::is / in_ and to_uppercase comparisons",TOK),("literal comparisons in statement parsers",PAR)],"tree returned by parse")
p("P10","Operator precedence and associativity match GoogleSQL",
  "In every expression built from unary and binary operators, IS [NOT], [NOT] IN, [NOT] LIKE, [NOT] BETWEEN, AND, OR, NOT, parentheses, field access and subscripts, the tree nests operators as GoogleSQL's precedence table says, and operators of equal precedence group to the left.",
  ["inputs"],"every combination of operators in an expression",
  "There are hundreds of operator pairs and thousands of triples; tests sample a few.",
  [PAR],[("get_precedence",PAR),("parse_expr precedence climbing, parse_between_operator, parse_in_operator, parse_binary_operator",PAR)],"left/right/right_min/right_max children")
p("P11","Layout and comments between tokens never change the tree's structure",
  "Inserting whitespace, newlines or comments between any two tokens that are already separated changes nothing in the result of parse except positions and comment lists: node types, child names and literals stay the same, and an accepted input stays accepted.",
  ["inputs"],"every accepted statement and every choice of whitespace, newline or comment in each gap between tokens",
  "Tests fix one layout per statement; lookahead code that counts raw tokens or compares lines/columns fails only for one gap of one statement.",
  [PAR,LEX],[("get_offset_index skips comments",PAR),("skip_whitespace",LEX)],"tree returned by parse")
p("P12","Statements parse independently of their neighbours; one EOF node ends the list",
  "Parsing a sequence of terminated statements yields exactly the concatenation of the nodes each statement yields on its own (up to positions), followed by exactly one EOF node without a token. A statement never changes how a later or earlier statement is tokenized or parsed.",
  ["inputs","histories"],"every pair of accepted statements, each ended by its semicolon",
  "Tests parse one statement at a time or a few fixed scripts; leaked lexer or parser state needs a particular first statement followed by a particular second one.",
  [PAR,LEX],[("parse_code loop, statement terminators",PAR),("type_declaration_depth carried across tokens",LEX)],"array returned by parse")
p("P13","Parse errors point at a real token or at the end of the input",
  "Whenever parse rejects input that tokenizes, the thrown line and column are those of one of the input's non-comment tokens or of the end-of-input token, and the message is a non-empty string. Input that does not tokenize is rejected by parse with exactly the error tokenize throws.",
  ["inputs"],"every string that parse rejects",
  "The repository's tests contain no rejected statements.",
  [PAR,"src/error.rs",LIB],[("BQ2CSTError::from_token / new",  "src/error.rs"),("error sites in statement parsers",PAR)],"error thrown by parse")
p("P14","Literals, identifiers and parameters get the right node type",
  "In an expression position, a number gets NumericLiteral, a quoted string StringLiteral, TRUE/FALSE BooleanLiteral, NULL NullLiteral, @x, @@x and ? Parameter, a {}-template Template, and a name that is not a reserved keyword (quoted or not, in any case) Identifier; the token's literal is kept as written.",
  ["inputs"],"every literal, name or parameter token in an expression position",
  "Classification depends on every character of the token and on a table of about a hundred reserved words; tests check a few words.",
  [TOK,PAR,"src/constants.rs"],[("Token::is_identifier, is_numeric, is_string, ...",TOK),("construct_node(Unknown)",PAR),("KEYWORDS","src/constants.rs")],"node_type in the tree")
p("P15","Returned trees conform to the published TypeScript types",
  "For every valid statement, each node's node_type is declared and belongs to the UnknownNode union that parse is declared to return, its children use only keys declared for that type (and none declared undefined), and each key holds a Node or a NodeVec as declared.",
  ["inputs"],"every valid statement built from documented clauses, with any names, literals and operand expressions",
  "The TypeScript declarations are a string the compiler never checks against the parser, and the tests never compare the two.",
  ["src/types.rs",PAR,CST],[("NODES declarations","src/types.rs"),("push_node keys",PAR)],"tree returned by parse")
p("P16","Results are plain JSON-compatible values of the documented shape",
  "Whatever parse and tokenize return or throw consists only of plain objects, arrays, strings, numbers and null: a token is exactly {line, column, literal}, a node exactly {token, node_type, children} with every child {Node} or {NodeVec}, and an error exactly {line, column, message}. Line and column are positive integers.",
  ["inputs"],"every input of parse and tokenize, accepted or rejected",
  "Native unit tests never run the wasm boundary, where maps, undefined or big integers could leak out.",
  [LIB,CST,TOK,"src/error.rs"],[("serde_wasm_bindgen Serializer::json_compatible",LIB),("Serialize derives",CST)],"JavaScript values returned or thrown")
p("P17","Calls are independent: no state survives from one call to the next",
  "The result of parse or tokenize depends only on its argument: any earlier call in the same module instance, successful or rejected, leaves later results unchanged.",
  ["histories","inputs"],"every earlier call followed by every later call in one instance",
  "Tests build a fresh Lexer and Parser each time; leaked state needs a particular earlier input.",
  [LIB,LEX,PAR],[("parse and tokenize construct fresh Lexer and Parser",LIB)],"result of the second call")
p("P18","parse uses bounded resources on deeply nested input",
  "Parsing time and stack grow acceptably with nesting depth, so that no input of ordinary size makes parse run out of stack or take exponential time.",
  ["inputs"],"inputs of unbounded nesting depth",
  "Needs inputs far larger than any test.",
  [PAR],[("recursive descent; parse_table clones the parser to look ahead",PAR)],"running time and traps of parse")
p("P19","The last semicolon is optional",
  "If a text that ends in a semicolon is accepted, so is the text without that semicolon, and the two trees differ only in the last statement's semicolon child.",
  ["inputs"],"every accepted text, whatever its last statement is",
  "The end of the input is a separate case in every statement parser that looks for optional trailing clauses; tests end nearly all statements with a semicolon.",
  [PAR],[("lookahead get_token(1) / is_eof at the end of each statement parser",PAR)],"trees of both texts")
p("P20","A statement parses the same inside a block as on its own",
  "A statement that is accepted on its own is accepted as a statement of any BEGIN, IF, LOOP, WHILE, REPEAT, FOR, CASE or procedure body, and its subtree there is the same as on its own (positions apart).",
  ["inputs"],"every accepted statement in every kind of block, first, last or between others, nested or not",
  "The stop words of blocks (END, ELSE, ELSEIF, WHEN, UNTIL, EXCEPTION) interact with the optional clauses of each statement; tests put SELECT 1 in a block.",
  [PAR],[("parse_keyword_with_statements and the statement parsers",PAR)],"subtree of the statement")
p("P21","An expression parses the same wherever an expression may stand",
  "An expression accepted as the only item of a SELECT list is accepted wherever the grammar takes an expression, and yields the same subtree there (positions apart, and apart from what follows it: comma, alias, order, semicolon).",
  ["inputs"],"every accepted expression in every place that takes one: clauses, function arguments, window and pipe operators, DML, DDL, scripting",
  "There are hundreds of calls of the expression parser with different flags and stop words; tests use trivial expressions in most of them.",
  [PAR],[("parse_expr(precedence, alias, as_table, after_dot, order) call sites, parse_exprs",PAR)],"subtree of the expression")
p("P22","Names and literals are opaque",
  "Replacing a non-keyword identifier, back-quoted name, string, number, parameter or template by another one of the same kind changes nothing in the result but that literal (and the positions, when the lengths differ).",
  ["inputs"],"every accepted text and every name or literal in it",
  "The parser compares literals with keywords in hundreds of places; a comparison that also matches a prefix, a quoted name or a string's content shows only for that text.",
  [PAR,TOK],[("Token::is / in_ / is_identifier / is_string",TOK),("comparisons with keywords",PAR)],"trees of both texts")
p("P23","Chains of joins, set operators, pipes and accesses nest to the left",
  "In `X L1 L2`, where L1 and L2 are joins, set operators, pipe operators or element/field accesses, the tree is L2's operator node whose left operand is exactly the tree of `X L1`, and whose other children are those it has in `X L2`.",
  ["inputs"],"every chain of links after every kind of head, in every place where chains occur",
  "Tests have single links and a few chains of the same kind; nesting goes wrong for a particular pair of links.",
  [PAR],[("JOIN loop in parse_table, set operator loops in parse_select_statement, parse_pipe_statement, infix loop of parse_expr",PAR)],"subtree of the chain")
p("P24","A query parses the same wherever a query may stand",
  "A query (SELECT, WITH, FROM, set operation, piped or parenthesised) that is accepted as a statement is accepted wherever the grammar takes a query - subqueries in expressions, FROM, IN, ARRAY, EXISTS, WITH, INSERT, MERGE, CREATE ... AS, EXPORT DATA, FOR - and yields the same subtree there (positions apart).",
  ["inputs"],"every accepted query in every place that takes one",
  "Each place decides by its own lookahead that a query follows; tests use SELECT 1.",
  [PAR],[("parse_select_statement, parse_from_statement and the lookahead before calling them",PAR)],"subtree of the query")
p("P25","A type parses the same wherever a type may stand",
  "A type accepted in CAST is accepted wherever the grammar takes a type - column and variable declarations, function parameters and results, STRUCT and ARRAY elements, ALTER - and yields the same subtree there (positions apart).",
  ["inputs"],"every accepted type in every place that takes one",
  "Nested and parameterised types are combined by hand in a few tests only.",
  [PAR,LEX],[("parse_type, parse_grouped_type_declaration_or_constraints",PAR),("type_declaration_depth",LEX)],"subtree of the type")
p("P26","Elements of a list do not depend on their position or neighbours",
  "In every comma-separated list of the grammar, an element yields the same subtree alone, first, last and in the middle, whatever its neighbours are (positions and the comma child apart).",
  ["inputs"],"every kind of list, every pair of elements",
  "List loops treat the first, the later and the last element in different code; tests have lists of one kind of element.",
  [PAR],[("parse_exprs and the hand-written list loops",PAR)],"subtree of the element")
p("P27","A table name parses the same in every table position",
  "A table path - plain, back-quoted, dotted, with dashes in its project - that is accepted after FROM is accepted wherever the grammar names a table or another such object (DML targets, DDL, CALL, GRANT, LOAD, EXPORT), and yields the same subtree there (positions apart).",
  ["inputs"],"every accepted table path in every such position",
  "Dashed and quoted paths are tested after FROM and in a few DDL statements only.",
  [PAR],[("parse_identifier, parse_table, parse_expr with as_table",PAR)],"subtree of the path")
p("P28","Optional clauses of a statement do not influence each other",
  "If optional clauses and words of a statement (DISTINCT, WHERE, IF NOT EXISTS, PARTITION BY, OPTIONS, AS before an alias, ...) are accepted one at a time, they are accepted together in the order of the grammar, and each keeps its node types, keys and inner structure whichever of the others are present.",
  ["inputs"],"every combination of optional clauses of every statement form",
  "With n optional clauses there are 2^n statements; the tests contain a handful per form.",
  [PAR],[("parse_select_statement, parse_create_*_statement, parse_alter_statement and the other statement parsers",PAR)],"tokens of a clause with their node types and keys")
p("P29","A rejection does not depend on layout or on earlier statements",
  "A text that tokenizes but is rejected stays rejected, at the same token, when whitespace or comments are put between its tokens or accepted statements before it.",
  ["inputs"],"every rejected text in every layout, after any accepted statements",
  "The tests hardly look at rejected input, and at none with comments.",
  [PAR],[("get_token, get_offset_index, from_token",PAR)],"error position as an index into the token list")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
