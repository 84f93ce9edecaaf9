#!/usr/bin/env python3
# Generates /verif/properties.jsonl. Kept as a script so that the texts stay readable.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
HS="hcl/hclsyntax/"
p("N01","Native tokens tile the source and carry true positions",
 "Lexing any byte sequence as a configuration, expression or template yields tokens in source order that never overlap, whose bytes and byte ranges are exactly the corresponding slices of the input, and which end with a single end-of-file token at the end of the input. Only blanks (and a leading byte-order mark) may lie between tokens. Each token starts at the line and column its preceding text implies, counting newlines and grapheme clusters.",
 ["inputs"],"all byte sequences, in all three lexing modes and with any starting position",
 "Scanner tests list about 60 inputs; the generated state machine has thousands of transitions and its behaviour on mixed template/heredoc/invalid bytes is only reachable by quantifying over inputs.",
 [HS+"scan_tokens.go",HS+"scan_tokens.rl",HS+"token.go",HS+"public.go"],[("scanner state machine","scan_tokens.go"),("token position emission","token.go")],["tokens returned by the three public lexing functions"])
p("N02","Native parsers are total and report every failure",
 "Parsing any byte sequence as a configuration, an expression, a template or a traversal returns without panicking or looping, and the returned object can be inspected, evaluated and walked without panicking even when errors were reported. If the input is not acceptable at least one error diagnostic is returned.",
 ["inputs"],"all byte sequences given to the four public parsing entry points",
 "Tests contain hand-picked malformed inputs; panics sit on rare error-recovery paths that only quantification over inputs reaches.",
 [HS+"parser.go",HS+"parser_template.go",HS+"parser_traversal.go",HS+"peeker.go",HS+"public.go"],[("recursive-descent parser with recovery","parser.go"),("newline/bracket aware token reader","peeker.go")],["parse results and diagnostics"])
p("N03","Reported source ranges are within the file and well nested",
 "Every range exposed by a parsed configuration or expression, and every range of a diagnostic about it, lies inside the file it names with its start not after its end. Attribute name, block type and label ranges cover exactly their own source text. The range of a construct covers the ranges of the parts it contains, except that an index, splat or relative traversal covers only its own operator part.",
 ["inputs"],"all source texts, and all nodes and diagnostics they give rise to",
 "Tests assert literal ranges for a few well-formed inputs, not for error recovery or for all nestings.",
 [HS+"parser.go",HS+"structure.go",HS+"expression.go","hcl/pos.go"],[("range construction in the parser","parser.go")],["ranges on attributes, blocks, expressions and diagnostics"])
p("N04","Quoted strings and heredocs decode exactly as the language defines",
 "A quoted string without template sequences evaluates to its content with exactly the defined backslash escapes and doubled-introducer escapes replaced, and an undefined or incomplete escape is an error. A heredoc evaluates to the verbatim text between its markers with only the doubled introducers replaced, and its indented form removes exactly the common leading whitespace.",
 ["inputs"],"all literal contents",
 "Tests try a dozen literals; the decoder works on scanner-dependent slices, so adjacent escapes and multi-byte text interact.",
 [HS+"parser.go",HS+"parser_template.go",HS+"scan_string_lit.go",HS+"scan_tokens.go"],[("string literal decoding","parser.go"),("heredoc flushing","parser_template.go")],["value of the parsed literal"])
p("N05","Operator precedence, associativity and grouping follow the language",
 "Evaluating an expression made of literals, unary and binary operators, conditionals and parentheses gives the value prescribed by the documented precedence and left associativity, irrespective of spacing and redundant parentheses.",
 ["inputs","programs"],"all operator/operand sequences up to a length, all operand values",
 "Tests evaluate a fixed table of expressions; wrong binding shows only for particular operator combinations and operand values.",
 [HS+"parser.go",HS+"expression_ops.go"],[("precedence climbing","parser.go"),("operator table","expression_ops.go")],["value of the expression"])
p("N06","Position lookups find exactly the enclosing constructs",
 "For every byte position of a file, the position lookup functions return the blocks, attribute and expression whose source ranges contain that position: the outermost and innermost blocks are the two ends of the enclosing-block chain, and nothing is returned when nothing encloses the position.",
 ["inputs"],"all nested block structures and all positions",
 "Tests probe a few offsets in a few files.",
 [HS+"structure_at_pos.go","hcl/structure_at_pos.go",HS+"navigation.go"],[("recursive lookup","structure_at_pos.go")],["results of the at-position functions"])
p("N07","Source text is divided into tokens as the language defines",
 "Identifiers, numbers, operators, comments, line breaks, quotes and template sequences are recognised by longest match exactly as the lexical grammar defines. Braces inside interpolations end the interpolation only when they balance, and text inside strings is never taken for operators or comments.",
 ["inputs"],"all byte sequences",
 "The scanner is a generated state machine with thousands of transitions; tests cover a few per cent of them.",
 [HS+"scan_tokens.go",HS+"token.go"],[("generated scanner","scan_tokens.go")],["token kinds and extents"])
p("N08","Walking a tree visits every construct once",
 "Walking a parsed body or expression enters every attribute, block and subexpression it contains exactly once, parents before children, leaves each after its children in reverse order of entering, and returns every diagnostic the walker produced in order; visiting all nodes calls the function for exactly the same constructs. Wherever a variable or value occurs in the source, some visited construct covers it.",
 ["programs","inputs"],"all nestings of expression forms in all bodies",
 "Each expression kind has its own walking code; tests walk two small trees.",
 [HS+"walk.go",HS+"expression.go",HS+"expression_template.go",HS+"structure.go",HS+"variables.go"],[("per-node child walking","expression.go"),("walk driver","walk.go")],["sequence of entered and left nodes"])
p("E01","Expression evaluation is total over all values",
 "Evaluating any syntactically valid expression in any scope returns a value and diagnostics without panicking, whatever mix of null, unknown, dynamically-typed, primitive, collection and structural values its variables hold. When no error is reported, the value's type is one the operation can produce.",
 ["programs","inputs"],"all expression forms combined with all kinds of values",
 "The cross product of expression forms and value kinds is far larger than the evaluation tables; panics come from one unforeseen combination.",
 [HS+"expression.go",HS+"expression_ops.go",HS+"expression_template.go","hcl/ops.go","hcl/traversal.go"],[("expression node evaluation","expression.go"),("template evaluation","expression_template.go")],["value and diagnostics of evaluation"])
p("E02","Unknown values are handled soundly",
 "If evaluating an expression with some variables unknown values of a known type succeeds with a known result, then evaluating it with any concrete non-null values of the same types in their place never succeeds with a different result. If the result is unknown, its type constraint is compatible with the type of every concrete result.",
 ["programs","inputs"],"all expressions, all choices of which variables are unknown and all values they may later take",
 "A relational property over pairs of evaluations; tests check single evaluations.",
 [HS+"expression.go",HS+"expression_ops.go",HS+"expression_template.go","hcl/ops.go"],[("unknown short-circuits in each node","expression.go")],["pairs of evaluation results"])
p("E03","Reported variables are exactly the free variables",
 "The variables reported for an expression include every root name whose value its evaluation can consult, so evaluation with only those names in scope gives the same result as with any larger scope. Names bound by the expression itself are not reported.",
 ["programs"],"all expression forms including nested scopes with shadowing",
 "Relational over scopes; each expression form has its own traversal code.",
 [HS+"variables.go",HS+"walk.go",HS+"expression_vars.go",HS+"expression.go"],[("scope-aware AST walk","variables.go")],["reported variables, evaluation results"])
p("E04","For, splat, conditional and index expressions compute the specified results",
 "For expressions visit elements in order, apply the filter, and build exactly the sequence, object or grouped object specified, reporting duplicate or invalid keys. Splat expressions apply the remaining traversal to every element, treating a non-sequence as one element and null as none. A failing element is reported. Conditionals select the branch by the condition, unify both result types and report only the problems of the selected branch, and indexing selects exactly the element the key identifies or reports an error.",
 ["programs","inputs"],"all small collections of every kind with arbitrary elements and keys",
 "Tests cover one or two collections per form.",
 [HS+"expression.go","hcl/ops.go"],[("for/splat/conditional/index nodes","expression.go")],["values and errors of evaluation"])
p("E05","Evaluation and decoding are repeatable and free of side effects",
 "Evaluating an expression or extracting content from a body gives the same values and reports the same set of problems, no matter how often, in which order and between which other evaluations it is done. The source buffer, the schema and the scope handed in by the caller are left unchanged.",
 ["histories","inputs"],"all repeated calls and all hash-map iteration orders",
 "Map iteration order differs from run to run, so a test passing once proves nothing.",
 [HS+"structure.go",HS+"expression.go","hcl/merged.go","hcl/json/structure.go","hcldec/decode.go"],[("map iteration in content extraction","structure.go")],["two successive results compared"])
p("E06","Traversals mean the same statically and dynamically",
 "Any traversal text accepted by the static traversal parser is also a valid expression, and resolving the traversal against a scope gives the same value or failure as evaluating the expression. Splitting a traversal and re-joining it, or converting an expression to a traversal and back, preserves its meaning.",
 ["inputs"],"all traversal texts and scopes",
 "Two independent parsers and two evaluation routes; tests compare neither.",
 [HS+"parser_traversal.go",HS+"parser.go","hcl/traversal.go","hcl/traversal_for_expr.go"],[("two traversal parsers","parser_traversal.go"),("traversal application","traversal.go")],["traversals and their values"])
p("E07","Index, attribute and path helpers agree with the language operators",
 "The exported index, attribute and path helpers return the same value and fail on exactly the same operands as the corresponding expression syntax, for every combination of collection and key including null, unknown and dynamically-typed ones, and never panic.",
 ["inputs"],"all pairs of values and keys",
 "Tests enumerate a couple of dozen pairs.",
 ["hcl/ops.go",HS+"expression.go"],[("shared operator helpers","ops.go")],["helper results and expression results"])
p("E08","Static analysis of lists, maps, calls and keywords agrees with evaluation",
 "When an expression can be decomposed statically as a list, a map or a function call, evaluating the parts and recombining them gives the same result as evaluating the whole, in native and JSON syntax alike. When it cannot be decomposed the analysis reports an error, and a static keyword is recognised only for a bare name.",
 ["programs"],"all expressions in both syntaxes, also when wrapped",
 "Tests check a handful of literals in one syntax at a time.",
 ["hcl/expr_list.go","hcl/expr_map.go","hcl/expr_call.go","hcl/expr_unwrap.go",HS+"expression.go","hcl/json/structure.go"],[("static decomposition interfaces","expr_*.go")],["decomposed parts"])
p("E09","Templates produce the text their parts prescribe",
 "A template evaluates to the concatenation of its literal parts and its interpolated values converted to text, with conditional and loop directives choosing and repeating their bodies. A strip marker removes exactly the blanks and the one line break adjacent to it on that line of literal text. A template consisting of one interpolation alone evaluates to that value unconverted.",
 ["programs","inputs"],"all sequences of literal text, interpolations and directives with and without strip markers",
 "Strip markers interact with neighbouring literals, loops and line boundaries; tests try single placements.",
 [HS+"parser_template.go",HS+"expression_template.go"],[("template assembly and stripping","parser_template.go")],["value of the template"])
p("B01","Native body content is partitioned by schema without loss",
 "Extracting content from a native body returns exactly the attributes and blocks the schema names, in source order and with their labels, and reports everything missing, extraneous or mislabelled. Partial extraction leaves exactly the unmentioned items in the remaining body, so extracting in several steps returns each item once and accounts for all of them.",
 ["inputs","configurations","histories"],"all bodies, all schemas and all sequences of partial extraction",
 "Quantifies over pairs of body and schema and over sequences; tests fix both.",
 [HS+"structure.go"],[("content extraction and hiding","structure.go")],["content, remaining body, diagnostics"])
p("B02","Merged bodies behave like one body holding all their content",
 "Content extracted from a merge of bodies is the union of the parts' content in order, an attribute defined in two parts is an error, and a required attribute may come from any part. Partial extraction leaves the union of what each part leaves, and merging is insensitive to grouping.",
 ["inputs","configurations"],"all sets of bodies (native, JSON, merged) and schemas",
 "Relational between merged and individual bodies.",
 ["hcl/merged.go"],[("merged content","merged.go")],["content of merged bodies"])
p("J01","The JSON parser accepts exactly JSON and never fails uncontrolled",
 "Parsing any byte sequence as JSON returns without panicking or looping. It reports no error exactly when the input is one valid JSON text whose root is an object or an array, and every reported range lies inside the file.",
 ["inputs"],"all byte sequences",
 "Error recovery in the hand-written scanner and parser is reached only by unusual malformed inputs.",
 ["hcl/json/scanner.go","hcl/json/parser.go","hcl/json/peeker.go","hcl/json/public.go"],[("scanner","scanner.go"),("recursive parser with recovery","parser.go")],["file and diagnostics"])
p("J02","JSON bodies are partitioned by schema exactly like native bodies",
 "A JSON body yields the attributes and blocks that its schema names, with nested property names as labels in order and arrays as repeated blocks or merged objects, and reports everything missing, extraneous or of the wrong kind. Partial extraction leaves exactly the unmentioned properties.",
 ["inputs","configurations"],"all JSON documents and schemas",
 "The same document means different structures under different schemas; tests fix a few pairs.",
 ["hcl/json/structure.go"],[("schema-driven interpretation","structure.go")],["content, remaining body, diagnostics"])
p("J03","JSON expressions denote the JSON data, with templates evaluated in strings",
 "Without a scope a JSON value evaluates to exactly the corresponding data with strings verbatim. With a scope each string and property name is evaluated as a native template and gives the same result as that template in native syntax, and the variables reported are those of all contained templates.",
 ["inputs"],"all JSON values and template contents",
 "Tests use a few strings.",
 ["hcl/json/structure.go","hcl/json/parser.go"],[("JSON expression evaluation","structure.go")],["value of JSON expressions"])
p("E10","Function calls pass exactly the written arguments",
 "A function call uses the definition in the innermost scope that has the name, as do variables. The function is called once with every written argument in order, an expanded last argument contributing each of its elements, converted to the parameter types, and its result is the result of the call; unknown arguments give an unknown result. An undefined function, a wrong number of arguments, an argument that fails, is null where null is not allowed, cannot be converted or cannot be expanded, and a failure of the function itself are reported, each unusable argument at its place, and the function is not called with wrong arguments.",
 ["programs","inputs"],"all parameter lists, argument lists, expansions and nestings of scopes",
 "Tests call a few functions with suitable arguments in one scope.",
 [HS+"expression.go","hcl/eval_context.go","hcl/traversal.go"],[("argument binding","expression.go"),("scope chain","hcl/eval_context.go")],["arguments received, result and diagnostics"])
p("E11","Operators and constructors compute the defined values",
 "Arithmetic, comparison and logical operators convert their operands to the type the operator works on, report exactly operands that cannot be converted or are null, give an unknown result for unknown operands and otherwise the mathematical result. Any two values can be compared for equality, and are equal exactly if both are null or they have the same type and content. Object and tuple constructors give exactly the written items, the last of several items with the same key winning, and report unusable keys.",
 ["programs","inputs"],"all operators and key forms over all kinds of operand",
 "The tables of the tests have a few operands per operator, mostly literals of the right type.",
 [HS+"expression_ops.go",HS+"expression.go"],[("operand conversion","expression_ops.go"),("object construction","expression.go")],["value and diagnostics"])
p("D01","Decoding conforms to the implied type and never panics",
 "Decoding any body with any well-formed specification returns without panicking, and when no error is reported the value's type matches the type implied by the specification. The implied type and decoding schema depend only on the specification.",
 ["inputs","configurations"],"all specifications and all bodies, including absent, repeated and mistyped content and unknown values",
 "Specifications nest arbitrarily and the conformance claim is universal; tests list examples.",
 ["hcldec/spec.go","hcldec/decode.go","hcldec/public.go","hcldec/schema.go"],[("specification decode and implied type","spec.go")],["decoded value, implied type"])
p("D02","Decoded values hold exactly the content of the body",
 "Each attribute specification yields the converted attribute value or null, each block specification yields one element per matching block in source order with labels as keys or label values, and defaults apply exactly when the primary value is null. Limits on the number of blocks, uniqueness of labels and required items are reported as errors exactly when violated.",
 ["inputs","configurations"],"all specifications of bounded depth and all bodies",
 "Counts, orders and label combinations are only sampled by tests.",
 ["hcldec/spec.go","hcldec/block_labels.go","hcldec/decode.go"],[("block collection","spec.go")],["decoded value and diagnostics"])
p("D03","Variables required for decoding are complete",
 "The variables reported for a body under a specification are sufficient: decoding with only those in scope gives the same result as decoding in any larger scope, for attributes, nested blocks and defaults alike.",
 ["inputs","configurations"],"all specifications and bodies",
 "Relational over scopes.",
 ["hcldec/variables.go","hcldec/spec.go"],[("variable collection","variables.go")],["reported variables"])
p("Y01","Dynamic block expansion equals writing the blocks out",
 "Expanding a body with dynamic blocks yields the same content as a body in which each dynamic block is replaced, in place, by one block per element of its collection, with iterator key and value available to labels, attributes and nested dynamic blocks. Every produced block carries the labels the schema requires, and unusable collections or labels are reported as errors.",
 ["inputs","configurations"],"all collections, label lists, iterator names, nestings and schemas",
 "Relational against the written-out form; tests compare a few fixed expansions.",
 ["ext/dynblock/expand_body.go","ext/dynblock/expand_spec.go","ext/dynblock/iteration.go","ext/dynblock/expr_wrap.go","ext/dynblock/unknown_body.go"],[("expansion","expand_body.go"),("iterator scopes","iteration.go")],["content of the expanded body"])
p("Y02","Variables reported for dynamic blocks are complete and exclude iterators",
 "The variables reported for expanding and decoding a body with dynamic blocks include every variable that expansion or decoding consults and none that is supplied by an iterator.",
 ["inputs","configurations"],"all nestings of dynamic blocks and iterator names",
 "Scoping of nested iterators is only sampled.",
 ["ext/dynblock/variables.go","ext/dynblock/variables_hcldec.go"],[("scope-aware walk","variables.go")],["reported variables"])
p("G01","Decoding into Go structs reflects the configuration",
 "Decoding a body into a tagged struct fills each attribute, block, label and remainder field from the corresponding configuration item, reports missing, duplicate, extraneous or unconvertible items as errors, and never panics for the field types the documentation allows.",
 ["inputs","configurations"],"all supported field types and all bodies",
 "Reflection code paths depend on type and content together.",
 ["gohcl/decode.go","gohcl/schema.go"],[("reflection-driven decode","decode.go")],["decoded struct and diagnostics"])
p("G02","Encoding Go structs and decoding them again is lossless",
 "Encoding a tagged struct as configuration, rendering it to text, parsing that text and decoding it into the same struct type yields an equal struct.",
 ["inputs"],"all field values including arbitrary strings, numbers, nested and repeated blocks",
 "Round trip over all values; one example test exists.",
 ["gohcl/encode.go","hclwrite/generate.go","hclwrite/ast_body.go"],[("struct encoding","encode.go")],["decoded struct"])
p("W01","Source rewriting without edits preserves the program",
 "Loading a valid configuration for rewriting and writing it back without changes, or formatting it, changes nothing but blanks and indentation: the sequence of tokens and hence the meaning is the same. Formatting already formatted text changes nothing.",
 ["inputs"],"all valid configuration texts",
 "Formatter tests are a list of examples; whether removing a blank joins two tokens depends on token pairs.",
 ["hclwrite/parser.go","hclwrite/format.go","hclwrite/tokens.go","hclwrite/public.go"],[("token partitioning","parser.go"),("spacing rules","format.go")],["rendered bytes"])
p("W02","Edits through the rewriting API change only what was asked",
 "After setting an attribute to a value or traversal, appending a block, clearing a body, or renaming a variable prefix in an expression, the rendered source parses without error, reading the edited item back through the API or by parsing gives the new content, and all other attributes, blocks and comments are unchanged.",
 ["inputs","histories"],"all valid configurations and sequences of edits",
 "Quantifies over documents and edit histories; tests apply one edit to one document.",
 ["hclwrite/ast_body.go","hclwrite/ast_attribute.go","hclwrite/ast_block.go","hclwrite/node.go","hclwrite/parser.go"],[("node list edits","node.go"),("attribute replacement","ast_body.go")],["rendered bytes, getters"])
p("W03","Generated value syntax evaluates back to the value",
 "Generating source tokens for any known value made of strings, numbers, booleans, nulls, sequences and mappings and evaluating the resulting text gives a value equal to the original up to the sequence and mapping kinds the syntax can express.",
 ["inputs"],"all strings and all small nested values",
 "Escaping must be right for every character sequence.",
 ["hclwrite/generate.go"],[("value rendering and escaping","generate.go")],["evaluated value"])
p("W04","Generated traversal syntax parses back to the traversal",
 "Generating source tokens for any traversal of names, attributes and string or number indexes and parsing the resulting text gives an equivalent traversal.",
 ["inputs"],"all traversals of bounded length",
 "Round trip over all step combinations and keys.",
 ["hclwrite/generate.go","hclwrite/ast_expression.go"],[("traversal rendering","generate.go")],["parsed traversal"])
p("W05","Formatting gives a canonical layout",
 "Formatting a configuration in which brackets that span lines open at the end of a line and close at the start of one gives a layout that depends only on its tokens and line breaks and not on the blanks it had: each line is indented by two blanks for each enclosing block, object or sequence, the equals signs of neighbouring single-line definitions and the comments at the end of neighbouring lines are in a column one blank behind the longest of them, other tokens have one blank or none between them, no line ends in blanks, and the content of strings, heredocs and comments stays as it is.",
 ["inputs"],"all such configurations and all ways of placing blanks between their tokens",
 "The layout of a line depends on its neighbours and on all tokens before it; tests format a few documents.",
 ["hclwrite/format.go","hclwrite/tokens.go","hclwrite/public.go"],[("indentation, spacing and alignment passes","format.go")],["formatted text"])
p("K01","Packing and serialising a body preserves it",
 "Packing a native file and, further, marshalling the packed body to JSON and back preserves every attribute, block, label, expression value and source range.",
 ["inputs"],"all valid configurations and all source positions",
 "Position delta coding and expression re-parsing depend on the document; tests round-trip two documents.",
 ["hclpack/pack_native.go","hclpack/json_marshal.go","hclpack/positions_packed.go","hclpack/vlq.go","hclpack/expression.go","hclpack/structure.go"],[("position delta coding","positions_packed.go"),("expression repacking","pack_native.go")],["packed body before and after"])
p("K02","Unmarshalling any packed document is safe",
 "Unmarshalling any JSON text into a packed body returns an error or a body that can be inspected and evaluated without panicking, with every position that is not described in the document reported as absent.",
 ["inputs"],"all byte sequences as position tables and range tables, including truncated and out-of-range ones",
 "Malformed packed data does not occur in tests.",
 ["hclpack/json_marshal.go","hclpack/positions_packed.go","hclpack/vlq.go"],[("range lookup","positions_packed.go")],["unmarshal result"])
p("K03","Packed bodies partition content by schema like other bodies",
 "Extracting content from a packed body returns exactly the items its schema names in order, reports the same missing, extraneous and mislabelled items as the native body it was packed from, and partial extraction leaves exactly the unmentioned items.",
 ["inputs","configurations"],"all bodies and schemas",
 "Relational to the native implementation.",
 ["hclpack/structure.go"],[("content extraction","structure.go")],["content, remaining body, diagnostics"])
p("H01","Range operations form a consistent interval algebra",
 "For all well-formed ranges of a file: overlap is symmetric and true exactly when some byte belongs to both, the overlap and the partition around a range cover exactly the right bytes, the union covers both, and containment and slicing agree with byte offsets and never panic.",
 ["inputs"],"all 64-bit byte, line and column positions",
 "Interval arithmetic over all integers; tests use small examples.",
 ["hcl/pos.go"],[("range arithmetic","pos.go")],["results of range operations"])
p("H02","Range scanning covers the buffer with true positions",
 "Scanning a buffer by lines, words or characters visits tokens in order whose reported range covers exactly the token's bytes, with line and column counted from the start position by newlines and grapheme clusters, until the whole buffer is consumed. Scanning a fragment with a start position gives the same tokens with positions shifted accordingly. A failing split function ends the scan for good with its error.",
 ["inputs"],"all buffers and start positions",
 "Tests scan a few strings from the initial position.",
 ["hcl/pos_scanner.go"],[("range scanner","pos_scanner.go")],["ranges and bytes"])
p("H03","Diagnostic rendering is total and shows the affected source",
 "Writing any diagnostic never panics, whatever its ranges, width, context and files, and the output contains the summary and detail and exactly the source lines touched by the subject or context, with the subject text highlighted.",
 ["inputs"],"all sources, subjects and contexts including empty, multi-line and out-of-file ranges",
 "Only a few well-formed diagnostics are rendered by tests.",
 ["hcl/diagnostic_text.go","hcl/pos.go","hcl/pos_scanner.go"],[("snippet selection","diagnostic_text.go")],["written text"])
p("X01","Type expressions and type strings are inverse",
 "Rendering any type that type syntax can express and parsing it again gives the same type, parsing any expression as a type never panics, and anything that is not a type specification is rejected with an error.",
 ["inputs"],"all types of bounded depth and all expression texts",
 "Round trip over all types.",
 ["ext/typeexpr/get_type.go","ext/typeexpr/public.go"],[("type decoding","get_type.go"),("type rendering","public.go")],["parsed type"])
p("X02","User functions behave like substituting arguments into their result",
 "Calling a function declared in configuration with acceptable arguments gives the value of its result expression with parameters bound to the arguments and variadic arguments bound as a tuple, regardless of earlier calls, and wrong argument counts or invalid declarations are errors rather than panics.",
 ["inputs","histories"],"all declarations, argument lists and call sequences",
 "Quantifies over declarations and arguments.",
 ["ext/userfunc/decode.go"],[("function construction","decode.go")],["function results"])
p("X03","Body transformation applies once to every nested body",
 "A deeply transformed body yields, at every nesting level and through partial extraction, the content of the transformed underlying body, applying the transformer exactly once per body, and bodies carrying diagnostics report them on every access without losing or repeating them.",
 ["inputs","configurations"],"all body nestings, schemas and transformers",
 "Relational between transformed and original bodies.",
 ["ext/transform/transform.go","ext/transform/transformer.go","ext/transform/error.go"],[("deep wrapper","transform.go")],["content of transformed bodies"])
p("X04","Included bodies are merged in and their problems reported",
 "A body with include blocks yields, in one or several extraction steps, its own content together with that of every included body, each item once, and a problem with an include block or an included body is reported on extraction rather than lost.",
 ["inputs","configurations"],"all bodies with include blocks, resolvers and schemas",
 "Relational between the including body and the merge of all bodies.",
 ["ext/include/transformer.go","ext/include/map_resolver.go"],[("include block transformer","transformer.go")],["content of the including body","diagnostics"])
p("D04","Specification queries describe what decoding does",
 "For every specification, the implied schema lists exactly the attributes and blocks that decoding consults, the child block types are the nested specifications of its blocks, and the source range reported for a body is that of the item the decoded value is taken from, or of the place where a missing item belongs.",
 ["inputs","configurations"],"all specifications and the bodies they describe",
 "Relational between the queries and decoding, per kind of specification.",
 ["hcldec/public.go","hcldec/schema.go","hcldec/spec.go","hcldec/block_labels.go"],[("source ranges","spec.go"),("implied schema","schema.go")],["implied schema","source ranges"])
p("B03","Mock bodies and expressions behave like parsed ones",
 "A mock body built from any content hands out attributes and blocks under schemas exactly like a parsed body with that content, in one or several steps, and mock expressions report the value, variables and list elements they were built from.",
 ["inputs","configurations"],"all contents and sequences of schemas",
 "Applications rely on mocks for their own tests; only a few extractions are tested.",
 ["hcltest/mock.go","hcl/structure.go"],[("mock content","hcltest/mock.go")],["content of the mock body"])
p("P01","The parser registry keeps every file it has parsed",
 "For every sequence of parse and add calls, a parser returns the same file for a name it has already parsed without repeating diagnostics, lists exactly the files it holds with their sources, and reports unreadable files every time without recording them.",
 ["inputs","histories"],"all sequences of calls",
 "No test exercises the registry.",
 ["hclparse/parser.go","hcl/json/public.go"],[("file registry","hclparse/parser.go")],["registered files and sources"])
p("H04","Lists of diagnostics keep every diagnostic and recognise errors",
 "Appending to and extending lists of diagnostics keeps all of them in order, a list has errors exactly if one of its members is an error, the errors of a list are exactly those members, its text names the first and counts the others, and writing a list writes every member in order.",
 ["inputs"],"all lists of diagnostics of any severities",
 "Every caller branches on HasErrors.",
 ["hcl/diagnostic.go","hcl/diagnostic_text.go"],[("diagnostics lists","diagnostic.go")],["errors of a list"])
p("C01","Specification files of the hcldec command mean what they describe",
 "Every specification file for the hcldec command is translated into the decoding specification its blocks describe, with the documented default names, arguments, types, functions, variables and constraints, and a specification file with missing, superfluous or invalid parts is reported instead of accepted or crashing.",
 ["inputs","configurations"],"all specification files and input files",
 "The command has no unit tests.",
 ["cmd/hcldec/spec.go","cmd/hcldec/type_expr.go","cmd/hcldec/spec_funcs.go"],[("translation of spec blocks","spec.go"),("type expressions","type_expr.go")],["decoded value under the specification file"])
p("C02","The hcldec command prints exactly the decoded value",
 "For input that decodes under the specification the command exits successfully and prints JSON that is the decoded value without its null properties, with numbers of any size exact and, if asked, the type of the value. For wrong input or variables it prints no value, exits with an error status and lists every problem with its severity, text and source range. Variables come from the specification and the variable arguments, which are data rather than templates, the last definition winning. The listing of references names every variable the input refers to with its steps, positions and current value.",
 ["inputs","configurations"],"all inputs, sets of variables and output options",
 "The command has no unit tests; the specification suite runs it on a few files.",
 ["cmd/hcldec/main.go","cmd/hcldec/vars.go","cmd/hcldec/diags_json.go"],[("output of the value","main.go"),("variables","vars.go"),("problems as JSON","diags_json.go")],["standard output, exit status, problems as JSON"])
p("C03","The hclfmt command prints or writes exactly the formatted sources",
 "The hclfmt command prints the formatted form of every source in order, or replaces every file by its formatted form and prints nothing, and names exactly the sources that formatting changes. If asked to check, it reports the syntax problems of every source, and for a source that has errors it prints nothing and leaves the file as it is, without affecting the other sources.",
 ["inputs","configurations"],"all sequences of sources, with and without checking, printed and in place",
 "The command has no unit tests.",
 ["cmd/hclfmt/main.go"],[("processing of one source","main.go")],["standard output, contents of files, reported problems, changed sources"])
p("Z01","Concurrent use of parsed configuration is safe",
 "Distinct goroutines may evaluate the same parsed expressions and format independent sources at the same time, with the same results as doing so one after another.",
 ["schedules"],"all interleavings of evaluations and formatting calls",
 "Interleavings are not controlled by tests.",
 [HS+"expression.go","hclwrite/format.go"],[("anonymous symbol stack","expression.go"),("shared placeholder token","format.go")],["results under concurrency"])
p("Z02","The formatter command never damages files",
 "Formatting a file in place either leaves the file untouched or replaces it by the formatted text, also when reading, parsing or writing fails.",
 ["crash_points","fault_sequences"],"all failures while reading and writing files",
 "No test injects I/O failures.",
 ["cmd/hclfmt/main.go"],[("in-place rewriting","cmd/hclfmt/main.go")],["file content"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
