"""What each check runs: parts are (build variant, harness) pairs with (cases, seconds) per tier.
A part's time limit only cuts generation short; the verdict never depends on it."""

def part(variant, harness, quick, thorough, **kw):
    return dict(variant=variant, harness=harness, quick=quick, thorough=thorough, **kw)

PBT = "property-based testing: "
CHECKS = {
"C15": dict(
    parts=[part("asan", "h_ast", (150000, 60), (6000000, 700)), part("asan", "h_render", (60000, 30), (2000000, 300))],
    technique=PBT + "random trees built through the constructors or parsed, cloned and compared; leak and sharing monitors",
    rule="A random AST of any node type is built with the public constructors (optional parts, lists, flags, extra comment children and child order drawn at random), or arbitrary text is parsed and a root or any node taken from it; it is cloned, and both are read back through every accessor; original and clones are freed in a random order. Non-trivial: the tree has at least one part, flag or text set, or the text more than 8 bytes.",
    note="Random search; equality is decided by reading both trees through all accessors (own table of the 100 node types), independence by disjoint node sets, sanitizers and allocation accounting."),
"C16": dict(
    parts=[part("asan", "h_ast", (250000, 60), (6000000, 900))],
    technique=PBT + "constructor/accessor round trip against the plain tree it was built from",
    rule="A random valid argument set for a random constructor (nested up to 4 deep), compared with what every accessor and the child list report; texts of every length from exactly-sized, then overwritten buffers. Non-trivial: at least one part, flag or text set.",
    note="Random search over all constructors; the oracle is the generated plain tree."),
"C17": dict(
    parts=[part("asan", "h_ast", (150000, 45), (3000000, 600)), part("ndebug", "h_ast", (60000, 30), (1000000, 300))],
    technique=PBT + "every generated node is tested against every type, with the documented hierarchy as oracle",
    rule="Every node of a random tree is tested for being an instance of each of the 113 documented types; names and codes of all types; supertype accessors on every subtype. Non-trivial: all.",
    note="The (type, type) matrix is covered completely on every run; the trees are random."),
"C18": dict(
    parts=[part("ndebug", "h_ast", (250000, 60), (5000000, 900))],
    technique=PBT + "valid constructor calls with one requirement broken; all accessors on nodes of other types",
    rule="A valid random call is broken in one place (part missing, of a wrong type, not a child; list empty or with such an element; missing operator; ...) in a build without assertions; also each accessor on a node of every other type. Non-trivial: all.",
    note="Random search; the requirements are those the public header documents. Uses a -DNDEBUG build, in which the library reports EINVAL."),
"C19": dict(
    parts=[part("asan", "h_ast", (150000, 60), (4000000, 700)), part("asan", "h_render", (50000, 30), (2000000, 300))],
    technique="stateful property-based testing: random operation histories against a map model",
    rule="Random histories of attach, replace, remove, get, handler changes and freeing over up to 5 contexts and 6 trees, compared step by step with a map; release handler calls compared as multisets; annotations on the nodes of a parse, dropped with its result or its last segment reference. Non-trivial: at least 3 annotations attached.",
    note="Random search over histories; the model is a map from (context, node) to pointer."),
"C20": dict(
    parts=[part("asan", "h_ast", (200000, 45), (5000000, 600)), part("asan", "h_render", (80000, 40), (2000000, 500))],
    technique=PBT + "rendered text against an independent model of the format",
    rule="Random constructed trees of all node types with random ranges, texts and widths, and parses of arbitrary text with a random initial ordinal and position, printed as result, by segment, by root and by single node: each line is checked against a model written per node type, and printings with two sets of colours against the plain one. Statements and commands of 90 forms with a part repeated until a detail is about as long as the buffer it is put together in. Printing to a stream that fails at a random byte must fail with its errno. Non-trivial: at least one part, flag or text set, or more than 8 bytes of text.",
    note="Random search; the model is a template per node type, the column layout and the line breaking rule."),
"C02": dict(
    parts=[part("asan", "h_gram", (350000, 90), (3000000, 900))],
    technique=PBT + "grammar-based generation of statements with the tree they denote as oracle",
    rule="A random statement tree over the whole grammar (one in three around a node type drawn from all) is written as text with random layout, letter case and redundant parentheses, parsed, and read back through every accessor. Non-trivial: more than six tokens or any part, flag or text set.",
    note="Random search; the oracle is the generated tree, its token positions and the comments written."),
"C03": dict(
    parts=[part("asan", "h_gram", (450000, 90), (3000000, 900))],
    technique=PBT + "operator sequences against a reference precedence climber, and text with full against text with minimal parentheses",
    rule="Flat random sequences of operators with no parentheses are parsed by an independent precedence climbing parser and by the library; random expression trees are written with all and with only the required parentheses. Non-trivial: at least 2 operators.",
    note="Random search; the oracle is an independent operator table."),
"C04": dict(
    parts=[part("asan", "h_gram", (450000, 90), (3000000, 900))],
    technique=PBT + "lexemes of random content and length in every role, compared with their decoded value",
    rule="Strings made of pieces with every escape, names and literals of lengths around the parser's buffer sizes, in every grammatical role. Non-trivial: the string has a piece, the longest lexeme has at least 200 bytes, or any statement with every role.",
    note="Random search; the oracle is the value the lexeme was written from."),
"C05": dict(
    parts=[part("asan", "h_gram", (350000, 90), (2500000, 900))],
    technique=PBT + "metamorphic: one statement, several layouts and letter cases, one tree",
    rule="One random statement is written with several random layouts (blanks, comments, line ends, letter case) and all must give the same tree. A small statement with a node of a drawn type with a blank or comment at each gap in turn. Non-trivial: a comment was written in one of the layouts.",
    note="Random search; the oracle is equality of the trees with positions removed."),
"C06": dict(
    parts=[part("asan", "h_gram", (350000, 90), (2500000, 900))],
    technique=PBT + "token positions of generated text against the ranges of every node",
    rule="Statements of random layout; the range of every node must be that of its tokens, with line and column recomputed from the text. A small statement with a node of a drawn type with a blank or comment at each gap in turn. Non-trivial: more than four tokens.",
    note="Random search; the oracle is the positions at which tokens were written."),
"C09": dict(
    parts=[part("asan", "h_seg", (250000, 60), (4000000, 900))],
    technique=PBT + "arbitrary and damaged programs; tiling invariant over the delivered segments, and concatenation against the parts parsed alone",
    rule="Valid, mutated, token-soup, repetitive and random-byte texts. The segments must tile the input, contain their nodes and errors, and number the nodes consecutively; a sequence of complete pieces must give the same as the pieces parsed alone, shifted. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracles are the tiling invariant and the metamorphic concatenation relation."),
"C10": dict(
    parts=[part("asan", "h_seg", (25000, 60), (400000, 900))],
    technique=PBT + "differential: string, buffer and stream entry points over random chunkings",
    rule="Arbitrary text (padded to around the parser's buffer sizes in a third of the cases) through cypher_parse, cypher_uparse, cypher_fparse and the _each functions, the streams delivering random chunks. Everything observable must be equal. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracle is equality of all entry points."),
"C11": dict(
    parts=[part("asan", "h_seg", (100000, 60), (2000000, 900))],
    technique=PBT + "metamorphic: one segment at a time against all at once, and a shifted start against real blanks",
    rule="Arbitrary text parsed at once, and one segment at a time with the initial position and ordinal carried over; and with a random initial position and ordinal. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracle is the parse of the whole text, shifted."),
"C12": dict(
    parts=[part("asan", "h_seg", (250000, 60), (4000000, 900))],
    technique=PBT + "random callback behaviour against a model of the delivery, with allocation accounting",
    rule="Texts of several segments; the callback stops at a random segment with a random value, retains random segments several times, parses from within the callback; the order, number of calls, return value, last position, intactness of retained segments and freedom from leaks are compared with the model. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracle is a small model over the segments of an undisturbed parse."),
"C13": dict(
    parts=[part("asan", "h_seg", (250000, 60), (4000000, 900))],
    technique=PBT + "result against the aggregate of its segments, by every accessor",
    rule="Arbitrary text and generated programs cut or padded at the end. The result's roots, directives, errors, node count and end-of-input flag must be those of its segments; the flag must be the one the generator knows. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracle is the aggregation of the segments and the way the text was built."),
"C14": dict(
    parts=[part("asan", "h_seg", (250000, 60), (4000000, 900))],
    technique=PBT + "quick parser against an independent splitter, and against the full parser on valid programs",
    rule="Arbitrary text against an independent state machine that splits at semicolons outside of quotes and comments; valid programs against the segments of the full parser. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracles are an independent splitter and the full parser."),
"C24": dict(
    parts=[part("asan", "h_seg", (250000, 60), (4000000, 900))],
    technique=PBT + "generated client commands against the words they were written from",
    rule="Commands with quoted, escaped and continued arguments, comments, and every terminator, between statements; programs without commands with and without the statements-only flag. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracle is the words the command was written from."),
"C01": dict(
    parts=[part("asan", "h_robust", (400000, 60), (4000000, 600)), part("cov", "h_robust", (250000, 45), (3000000, 900)), part("ndebug", "h_robust", (150000, 30), (2000000, 400))],
    technique="property-based testing and coverage-guided fuzzing: valid, damaged, token-soup and random input under sanitizers, with allocation accounting",
    rule="Arbitrary bytes (valid, mutated, token-soup, repetitive, random) through a random entry point with random flags, configuration, chunking and callback behaviour; every accessor, the renderer and the clone function are run over the result; everything must be freed. Expressions nested up to 200 levels are parsed, cloned, printed and freed. Address and undefined-behaviour sanitizers, library assertions on (asan, cov) and off (ndebug). Non-trivial: more than 8 bytes of text.",
    note="Random search plus coverage guidance (cov variant); in random text nesting is limited to depth 6, because of the known cost of deeper nesting."),
"C07": dict(
    parts=[part("asan", "h_robust", (250000, 75), (3000000, 900)), part("cov", "h_robust", (100000, 30), (1000000, 400))],
    technique="property-based testing and coverage-guided fuzzing: error reports checked against the text they are about, unreadable characters planted at known places",
    rule="Arbitrary text: every report against the text (position, character, context line, offset, colours). A text cut at its first error and continued with an unreadable character must have its first error there. A valid program with an unreadable character before a random token: the error is there, the token that stood there is among the expected, and each expected keyword or punctuation lets the parser go on. The same at every place of a small statement with a node of a drawn type. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracles are the text itself and the position of the planted character."),
"C08": dict(
    parts=[part("asan", "h_robust", (250000, 75), (3000000, 900)), part("cov", "h_robust", (100000, 30), (1000000, 400))],
    technique="property-based testing and coverage-guided fuzzing: one damaged statement in a valid program, the others must be as before; edited statements against an independent recogniser",
    rule="A program of 2 to 6 statements or commands, one of them damaged by an unreadable character or an unbalanced bracket: errors only within it, the other statements as in the undamaged program. Statements with a few tokens deleted, doubled, exchanged, replaced or inserted: what is accepted without error must be derivable in a context-free grammar of the language, by an independent general recogniser. Arbitrary text: everything but blanks and terminators is in a directive, a comment or skipped text, and accepted statements are in the language. The single small edits of a small statement with a node of a drawn type. Nonsense within one clause, or before a statement: everything before it and from the next clause or statement keyword on as without it. Non-trivial: all of the first, more than 8 bytes of text of the others.",
    note="Random search; the oracles are the parse of the undamaged program and an independent grammar (which ignores operator precedence)."),
"C25": dict(
    parts=[part("asan", "h_robust", (400000, 60), (4000000, 600)), part("cov", "h_robust", (250000, 45), (3000000, 900))],
    technique="property-based testing and coverage-guided fuzzing: structural invariants of every tree over arbitrary input",
    rule="Arbitrary text: every tree of every segment is read through all accessors, and node nesting, order, ranges, required parts and their types are checked. Non-trivial: more than 8 bytes of text.",
    note="Random search; the oracle is a table of the node types with their parts."),
"C21": dict(
    parts=[part("asan", "h_fault", (200000, 60), (4000000, 900)), part("ndebug", "h_fault", (100000, 30), (1000000, 300))],
    technique=PBT + "systematic and random allocation failures over generated calls, compared with the same call without failure",
    rule="A random parse, construction, cloning, rendering or annotation history is run once counting its allocations, then again with single ones (all of them, when few) failing, alone or with all later ones: failure with ENOMEM or the same result; no leak (allocation accounting), no invalid access (sanitizers), arguments unchanged, later calls the same. A small statement with a node of a random type is parsed with each of its allocations failing. Non-trivial: more than 8 bytes of text, or a tree with a part, flag or text.",
    note="All allocations of an operation when there are few (14 in a parse, 30 in a clone; every one in a construction), else a random choice."),
"C27": dict(
    parts=[part("asan", "h_fault", (200000, 45), (4000000, 600))],
    technique=PBT + "random input and output streams failing at random offsets, compared with the undisturbed call",
    rule="A random text is read from a stream that fails at a random offset (including exactly the end) with a random errno, in random chunks and buffer modes; a random AST is printed to a stream that fails at a random offset. Failure with that errno, delivered segments as in the undisturbed parse, no leak. Non-trivial: more than 8 bytes of text, or a tree with a part, flag or text.",
    note="Random search; the oracle is whether the stream was seen to fail."),
"C22": dict(
    parts=[part("asan", "h_det", (100000, 75), (2000000, 700)), part("tsan", "h_det", (20000, 60), (400000, 700))],
    technique=PBT + "repeated calls after random histories, over painted memory and in concurrent threads under ThreadSanitizer, compared with the call alone",
    rule="A random text through a random entry point and configuration, everything observable dumped: again after random other calls (some failing, some repeated hundreds of times); with fresh heap and stack memory filled with different bytes; in 2 to 4 threads at once, each with its own text or sharing a configuration and a result. All dumps must be equal, and ThreadSanitizer quiet. Non-trivial: more than 8 bytes of text, or threads.",
    note="Random search; races are detected by happens-before analysis, so no particular interleaving is needed."),
"C23": dict(
    parts=[part("asan", "h_lint", (15000, 75), (400000, 900), also=["cypher-lint"])],
    technique=PBT + "generated files, options and standard input for the tool, compared with what the library reports about them",
    rule="Zero to three files (valid, damaged, empty, missing, a directory, standard input) and random options, with output and errors to files pseudo-terminals or a full device: standard output, standard error and exit status of cypher-lint (built with sanitizers) must be those computed from the library; stream mode, whole mode and single files must report the same. Non-trivial: all.",
    note="Random search; the oracle is a model of the tool on top of the library."),
"C26": dict(
    parts=[part("work", "h_cost", (14000, 90), (1000000, 850))],
    technique=PBT + "instrumented work (edges executed, bytes handled) over generated repetition and nesting shapes at growing sizes",
    rule="A random unit (item, clause, operator, statement, comment, quoted or long token, or random words and punctuation) repeated to some size and to four times that size, through a random entry point: work per byte must not grow by more than 1.6 times; likewise the work per node of cloning and freeing the trees, and per byte of printing them. One to three ways of nesting an expression in another at random, in a random clause, nested d, d+1 and d+2 times: each level must add the same work. Non-trivial: all.",
    note="Sizes up to 96 KB (quick) and 192 KB (thorough), depths up to 24 and 42 levels; work is counted, not timed, so results do not depend on the machine. Recovery from errors and some nested shapes are known to be superlinear (known_findings.txt) and bounded more loosely."),
}
