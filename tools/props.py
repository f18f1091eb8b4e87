import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
PR,TK="parser.go","sqltoken/tokenizer.go"
p("C01","Every input is answered with an AST or an error: no panic, no hang, no noise",
 "For every input text (valid, truncated, mutated or arbitrary bytes), every dialect and every parser option, creating a parser and calling any of its entry points (file, script, statement, expression, data type) returns either a result or a non-nil error, never both missing. It never panics, never loops or grows memory without bound, and writes nothing to the process's standard output or standard error. (Only stack depth from absurdly deep nesting is excluded.)",
 ["inputs","configurations"],"all byte strings up to a few KB with nesting depth under ~1000 x dialects x options x entry points",
 "The tests parse a few hundred well-formed statements; malformed and truncated input is a different and unbounded set.",
 [PR,TK],[("token cursor with EOF, expectKeyword/expectToken, parse functions returning errors",PR),("scanner loop ending at EOF",TK)],obs=["return values","stdout/stderr","CPU time and memory"])
p("C02","Tokenizer splits text exactly by the lexical grammar of its dialect",
 "For every input and dialect the tokenizer yields exactly the tokens of the lexical grammar: same kinds, same values (unescaped string contents, quoted and unquoted words with their quote style and upper-cased keyword, numbers, operators, punctuation, comment texts, whitespace), in order, with no character lost or invented. It fails exactly when the text is lexically malformed (unclosed string, quoted identifier or block comment, lone '!').",
 ["inputs","configurations"],"all texts x built-in and custom dialects (identifier start/part/quote predicates)",
 "Tests tokenise about 40 fixed strings; lexing is defined per character pair and per dialect predicate.",
 [TK,"sqltoken/kind.go","dialect/dialect.go","dialect/mysql.go","dialect/postgres.go","dialect/keywords.go"],[("per-character dispatch in next()",TK),("MakeKeyword and the keyword cache",TK)])
p("C03","Token positions tile the source with true line and column",
 "Every token's start equals the previous token's end, the first starts at line 1 column 1, and each position is the true place in the source: columns count characters (a tab between tokens counts four), and every newline (LF, CR or CRLF, each one newline) moves to column 1 of the next line, including newlines inside strings, quoted identifiers and block comments. The tokenizer's own position is where its last token ended, and ComparePos orders positions as they follow each other in the text.",
 ["inputs","configurations"],"all texts, including multi-line literals, escapes and non-ASCII characters x dialects",
 "Tests pin positions of short ASCII one-line tokens; drift after escapes, newlines in literals or wide characters is never observed.",
 [TK],[("Line/Col counters advanced in next(), tokenizeWord, tokenizeSingleQuotedString, tokenizeMultilineComment",TK)],
 [("Line, Col","current position","Tokenizer in "+TK)])
p("C04","Result depends only on the bytes read, and read errors are reported",
 "However the source reader splits the same bytes into reads (one byte at a time, with empty reads, data returned together with end-of-file), parsing gives the same tokens and the same AST or error. If the reader fails with any error other than end-of-file, creating the parser (or tokenising) fails with an error that wraps it; text read before the failure is never accepted as the whole source.",
 ["inputs","fault_sequences"],"all texts x all ways of chunking them x a read error at every byte offset",
 "All tests read from an in-memory string that never fails and is delivered in one read.",
 [TK,PR],[("text/scanner over the io.Reader","NewTokenizer in "+TK),("NewParser returning the tokenizer error",PR)])
p("C05","A query parses to exactly the tree it denotes",
 "Every syntactically valid query built from the supported grammar (common table expressions, DISTINCT, projections with wildcards and aliases, FROM lists with tables, aliases, table functions, hints, derived and lateral tables, natural, cross, qualified joins with ON or USING, WHERE, GROUP BY, HAVING, set operations with their precedence and associativity, ORDER BY, LIMIT/OFFSET, nested subqueries) is accepted and yields exactly the tree that grammar assigns to it. No clause keyword is taken for an alias, and no part of the query is dropped or attached elsewhere. A query that is cut off, lacks a mandatory keyword or has unbalanced parentheses is rejected.",
 ["inputs","programs"],"all derivations of the supported query grammar up to a size bound, in every combination of optional clauses",
 "Tests check some 60 hand-written queries; combinations of clauses and nesting are not sampled.",
 [PR,"sqlast/query.go","dialect/keywords.go"],[("parseQuery, parseQueryBody, parseSelect, parseTableReference, parseTableFactor, parseLimit",PR),("reserved alias sets","dialect/keywords.go")])
p("C06","Expressions group by SQL precedence and associativity",
 "Every expression formed from the supported operators groups as: '::' binds tightest, then * / %, then + - (binary and unary), then comparisons, [NOT] IN, [NOT] BETWEEN and [NOT] LIKE, then IS [NOT] NULL, then NOT, then AND, then OR, with binary operators of equal rank grouping left to right and parentheses kept as explicit nodes. Each operand, CASE, CAST, EXISTS, function call (with window), subquery and literal appears in the tree exactly where it is written.",
 ["inputs","programs"],"all operator/operand sequences up to a size bound, with and without parentheses",
 "Tests look at a handful of two-operator expressions; the pairs and triples of operators around NOT, BETWEEN and IS are unsampled.",
 [PR,"sqlast/ast.go","sqlast/operator.go"],[("parseSubexpr/parseInfix/parsePrefix with getPrecedence",PR)])
p("C07","INSERT, UPDATE and DELETE parse to exactly the tree they denote",
 "Every valid INSERT (column list, rows of values or a query, ON DUPLICATE KEY UPDATE), UPDATE and DELETE statement of the supported grammar is accepted and yields exactly the denoted tree: target, columns, every row and value in order, every assignment, the complete condition. A statement missing one of its mandatory parts is rejected.",
 ["inputs","programs"],"all derivations of the supported DML grammar up to a size bound",
 "Tests cover about a dozen fixed DML statements.",
 [PR,"sqlast/stmt.go"],[("parseInsert, parseUpdate, parseDelete, parseAssignments",PR)])
p("C08","DDL and EXPLAIN parse to exactly the tree they denote",
 "Every valid CREATE TABLE (IF NOT EXISTS, columns with every supported type, DEFAULT, AUTO_INCREMENT and column constraints in any order, named and unnamed table constraints, table options), CREATE [MATERIALIZED] VIEW, CREATE [UNIQUE] INDEX, ALTER TABLE action, DROP TABLE/INDEX and EXPLAIN is accepted and yields exactly the denoted tree. No constraint, flag, name, type parameter or option is lost, merged or invented. A statement that is cut off, lacks a mandatory keyword or has unbalanced parentheses is rejected.",
 ["inputs","programs"],"all derivations of the supported DDL grammar up to a size bound, every order of column attributes",
 "Tests cover fixed DDL statements; orders and combinations of column attributes, types and options are unsampled.",
 [PR,"sqlast/stmt.go","sqlast/type.go","sqlast/table_option.go"],[("parseCreateTable, parseElements, parseColumnDefinition, parseTableConstraints, parseTableOption, ParseDataType, parseAlter, parseDrop, parseCreateIndex, parseCreateView",PR)])
p("C09","Printed SQL parses back to the same AST",
 "For every statement the parser accepts, and every syntax tree of the supported grammar built in code (with explicit parentheses where grouping needs them), printing it and parsing the text again gives an equal tree up to source positions. Printing that tree again gives the identical text.",
 ["programs","inputs"],"all trees of the supported grammar up to a size bound, including literals with any content and all quoting styles",
 "Round-trip tests use fixed statements without special characters in literals, and compare only some node kinds.",
 ["sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/type.go","sqlast/value.go","sqlast/table_option.go","sqlast/writer.go",PR],[("WriteTo of every node","sqlast/*.go"),("sqlWriter","sqlast/writer.go")])
p("C10","Parsing and printing neither drop nor invent source content",
 "For every accepted source, the printed SQL consists of the same significant tokens in the same order as the source, after only the documented normalisations (keyword case, optional noise words such as AS, OUTER-free spelling of type names and WITHOUT TIME ZONE, '::' casts, optional KEY, order of column attributes, explicit statement separators). In particular every identifier, literal, operator and parenthesis of the source is present exactly once.",
 ["inputs","programs"],"all accepted sources: generated statements, and token-level mutations of them that the parser still accepts",
 "Tests compare chosen outputs; a dropped token in an unexpected place leaves every sampled output intact.",
 [PR,"sqlast/query.go","sqlast/stmt.go","sqlast/ast.go"],[("every parse function consuming tokens into nodes",PR),("WriteTo of every node","sqlast/*.go")])
p("C11","Layout, comments and keyword case do not change the tree",
 "Replacing the whitespace between tokens by any other whitespace, line breaks or comments, inserting comments anywhere between tokens, and changing the letter case of keywords leaves the resulting tree the same up to positions, whether or not comment collection is enabled.",
 ["inputs","configurations"],"all statements of the supported grammar x all layouts x keyword case x comment collection on/off",
 "Tests use one layout per statement.",
 [PR,TK],[("token cursor skipping whitespace and comments (nextToken, prevToken, peekToken)",PR)])
p("C12","A script is exactly the sequence of its statements",
 "Parsing statements joined by semicolons (with any layout, with or without a final semicolon) yields exactly the list of trees that the statements yield on their own, in order; two statements without a separator, or anything left over after a statement, is an error. A printed file parses back to the same list of statements.",
 ["inputs","histories"],"all sequences of up to a dozen supported statements x separators and layouts",
 "Tests parse a few two-statement scripts and never re-parse a printed file.",
 [PR,"sqlast/ast.go"],[("ParseSQL/ParseFile statement loop",PR),("File.WriteTo","sqlast/ast.go")])
p("C13","A quoted identifier is always a name, never a keyword",
 "A delimited identifier is treated as a name wherever a name may stand, whatever it spells (SELECT, FROM, NULL, NOT, ...): it never acts as a keyword, ends a clause or changes the grammar. It keeps its exact content and quote style in the tree and in the printed SQL.",
 ["inputs","configurations"],"all supported statements with any subset of their names replaced by delimited identifiers spelling any keyword x dialects",
 "One test tokenises a quoted keyword; no test parses one.",
 [PR,TK],[("SQLWord quote style, keyword tests in the parser",PR),("MakeKeyword",TK)])
p("C14","Literals keep their exact value",
 "String and national-string literals keep exactly their unescaped content, integer literals within 64 bits and decimal literals keep exactly the value written, and true/false/null keep theirs, in every place of the grammar where a literal may stand, through parsing, printing and re-parsing. Numeric literals that cannot be represented are rejected, not silently changed.",
 ["inputs"],"all string contents, all digit strings, every literal position of the grammar",
 "Tests use small integers and plain ASCII strings.",
 [PR,TK,"sqlast/value.go"],[("parseValue, parseLiteralInt, parseOptionalPrecision",PR),("WriteTo of the value nodes","sqlast/value.go")])
p("C15","Inspect visits every node of the tree exactly once, parents first",
 "Inspecting any parsed tree calls the function exactly once for every node reachable in it (the file's list of comments is not part of the tree), every parent before its children, with one closing nil call after the children of each node that was entered, and skips exactly the descendants of nodes for which the function returned false. It never panics on a tree the parser produced.",
 ["programs","histories"],"all trees of the supported grammar x all prune decisions",
 "Tests walk a few statements and never count the visited nodes.",
 ["sqlast/walk.go"],[("Walk type switch, Inspect","sqlast/walk.go")])
p("C16","Walk honours the visitor protocol",
 "Walking a tree calls Visit on each node, at every place where it stands, with the visitor that was returned for its parent, uses the returned visitor for the children, calls that visitor's Visit(nil) once after them, and does not descend when nil is returned.",
 ["programs","histories"],"all trees of the supported grammar x visitors that return a different visitor per node",
 "Tests only use Inspect, whose visitor always returns itself.",
 ["sqlast/walk.go"],[("Walk","sqlast/walk.go")])
p("C17","Apply traverses every node in order with a truthful cursor, and aborts on demand",
 "Apply with non-editing callbacks returns the same unmodified tree, calls pre once per node in the same order as Inspect and post once after the node's children, with the cursor's node, parent, field name and index naming exactly where the node sits in its parent. Returning false from pre skips the node's children and its post; returning false from post ends the traversal at once, and so does a panic in a callback, which reaches Apply's caller.",
 ["programs","histories"],"all trees of the supported grammar x prune and abort decisions at every node",
 "Tests apply one rewrite to a few small trees.",
 ["sqlastutil/rewrite.go"],[("application.apply/applyList, Cursor","sqlastutil/rewrite.go")],[("iter index/step","position in the list being traversed","sqlastutil/rewrite.go")])
p("C18","Apply edits act exactly like edits of the lists and fields they name",
 "Replacing the current node changes exactly that field or list element; deleting, inserting before and inserting after change exactly the enclosing list as the same edit on a plain slice would. Inserted nodes are not visited, no remaining original element is skipped or visited twice, and a replacement made in pre has its own children left unvisited only as documented by the walk of the original node.",
 ["programs","histories"],"all trees x all sequences of cursor edits (replace, delete, insert before/after, in pre and post)",
 "Tests perform single replacements; interleavings of several edits in one list are not sampled.",
 ["sqlastutil/rewrite.go"],[("Cursor.Replace/Delete/InsertBefore/InsertAfter","sqlastutil/rewrite.go")])
p("C19","WriteTo reports exactly what it wrote and stops at the first write error",
 "For every node and writer, WriteTo writes the same bytes as the node's SQL string regardless of the writer's optional interfaces, and returns the exact byte count. If the writer fails at any point, WriteTo returns that error, a count equal to the bytes the writer accepted, and issues no further write; the accepted bytes are a prefix of the full output.",
 ["programs","fault_sequences"],"all nodes of all generated trees x a write failure (with or without partial write) at every write call",
 "Tests only write to in-memory buffers that never fail.",
 ["sqlast/writer.go","sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/type.go","sqlast/value.go"],[("sqlWriter error latch and byte count","sqlast/writer.go")])
p("C20","Every node can tell its extent, and extents nest",
 "On every tree the parser produces, asking any node for its start and end position never panics, and the start of a statement, file, and of each node kind that records positions is not after its end. Child extents lie within their statement's extent and siblings written one after the other do not overlap.",
 ["inputs","programs"],"all parsed trees of the supported grammar x layouts",
 "Tests compare positions of a few nodes in one-line sources.",
 ["sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/type.go","sqlast/value.go","sqlast/table_option.go",PR],[("Pos/End methods and the positions set while parsing",PR)])
p("C21","Node positions delimit the node's own source text",
 "For every node of a parsed tree, the start position is that of the first character of the source text the node was parsed from and the end position is just past its last character, on every layout of the source. Every position a node records in a field of its own is where one of its tokens begins or ends. (Node kinds whose positions are known not to be recorded are listed as findings.)",
 ["inputs","programs"],"all parsed trees of the supported grammar x layouts over several lines",
 "Tests check positions of a few nodes, many expected values being the zero position.",
 ["sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/type.go","sqlast/value.go","sqlast/table_option.go",PR],[("Pos/End methods and the positions set while parsing",PR)])
p("C22","Comment collection returns every comment once, in order, and nothing else",
 "With comment collection on, the parsed file carries every comment of the source exactly once, in source order, each with its exact text and position and in groups that never span a non-comment token (comments behind code on its line are a group apart from those on the lines below), whatever the layout and wherever the comments stand. The statements are the same as with collection off.",
 ["inputs","histories"],"all scripts of supported statements x comments of both styles between any two tokens, before the first and after the last",
 "Tests use a few fixed commented files; comments inside backtracking constructs are not sampled.",
 [PR,"sqlast/comment.go"],[("nextTokenWithParseComment",PR)],[("comments","groups keyed by position","Parser in "+PR)])
p("C23","The comment map assigns every comment group to one node, by placement",
 "For every parsed file with comments, building the comment map never panics and maps every comment group to exactly one node of that file, losing and duplicating none; the map depends only on what the file holds at the time. A comment alone on the lines directly above a statement or a table element is assigned to that statement or element (or a node starting at the same place), one trailing on the last line of such a node to a node ending on that line, and so is one on the line directly below it when an empty line, or nothing more, follows.",
 ["inputs","histories"],"all scripts of supported statements x comment placements",
 "Tests check a few fixed files.",
 ["sqlast/commentmap.go","sqlast/walk.go"],[("NewCommentMap over the node list","sqlast/commentmap.go")])
p("C24","Parses are deterministic and independent of each other",
 "Parsing the same source with the same dialect and options always gives the same result, regardless of what was parsed, printed, inspected or edited before, is being parsed concurrently, or runs in the middle (in a reader's, writer's, dialect's or callback's call, or between the statements or tokens of another source); so do printing and traversing a tree, which depend only on what the tree holds at the time. Trees and token lists from different parses, and the places of one tree, share no mutable state: editing one never changes another or a later parse, and there are no data races.",
 ["histories","schedules"],"all histories of parse/print/edit operations x concurrent and nested operations",
 "Tests run one parse at a time and never reuse or edit earlier trees.",
 [PR,TK,"sqlast/writer.go","sqlastutil/rewrite.go"],[("package-level keyword cache and byte constants",TK)],[("keywordCache","words shared by all tokenizers",TK)])
p("C25","All entry points agree on the same text",
 "Parsing pre-computed tokens (with or without whitespace and comment tokens) gives the same tree as parsing the source, and leaves the tokens as they are, for any number of parsers; the file, script and single-statement entry points give the same statements. An expression or data type parsed on its own is the same as when parsed inside a statement, and successive single-statement or expression calls on one parser continue where the previous one ended.",
 ["inputs","configurations"],"all supported statements, expressions and types x entry points x token filtering",
 "Tests use one entry point per construct.",
 [PR,TK],[("NewParserWithOptions/SetTokens, ParseExpr, ParseDataType, ParseStatement",PR),("DisableParseComment",TK)])
p("C26","The astprinter command prints the statement or fails cleanly",
 "For every input on standard input or in a named file, the command either exits successfully having printed the tree and the statement's SQL (which parses to the same statement), or exits with a failure status and an error message. It never crashes with a panic.",
 ["inputs"],"all texts: supported statements, truncated and mutated ones",
 "The command has no tests.",
 ["cmd/astprinter/main.go"],[("main","cmd/astprinter/main.go")])
p("C27","Tree comparison ignores only the marker fields",
 "Comparing two trees with the exported comparison reports no difference exactly when they are equal in every exported field at every depth, positions included; only the unexported marker embeddings are ignored.",
 ["programs"],"all pairs of a generated tree and the same tree with any single field changed at any depth",
 "Tests use it only as a helper whose verdict they trust.",
 ["testhelper.go"],[("IgnoreMarker filter","testhelper.go")])
p("C28","Generated marker code declares exactly the requested interface",
 "For any exported type name (whose private form is not predeclared in Go) and any list of embedded interfaces, the marker generator writes one file, <output>_gen.go, of gofmt-clean Go that compiles in the target package: it declares the interface with exactly the methods of the embedded ones and the marker's, and only types embedding the generated marker struct implement it. On arguments that give no valid code it fails with a message and writes nothing.",
 ["inputs","programs"],"all exported Go type names x embedded type names x package names",
 "One test renders one fixed template.",
 ["tools/genmark/main.go"],[("template and generation","tools/genmark/main.go")])
p("C29","Nodes built with the constructors are the nodes the parser builds",
 "For every value, a node made by an exported constructor holds exactly that value (also as its Value), has no position unless one is given, and prints that value's SQL text (dates and times in fixed-width ISO form). No two nodes made, nor the parts of one, are the same. A tree whose names, object names, literals and sizes are rebuilt with the constructors from the values a parsed tree gives equals that tree up to positions, prints the same text, and parses back to an equal tree.",
 ["inputs","programs"],"all names, integers, finite decimals, texts, booleans, dates and times x all trees of the supported grammar",
 "Tests use constructors to write expected trees of fixed statements; odd values and Value() are never looked at.",
 ["sqlast/value.go","sqlast/ast.go","sqlast/type.go"],[("New* constructors, Value methods, WriteTo of values","sqlast/value.go"),("NewIdent, NewObjectName","sqlast/ast.go")])
p("C30","Work grows in proportion to the source",
 "Tokenizing a source, parsing it (with or without comments), printing its tree, inspecting it and applying look-only callbacks to it each take time proportional to the source's length, whatever is repeated (list elements, operators, joins, rows, statements, characters of one token, blank space, comments) or nested (parentheses, calls, CASE, subqueries, set operations): n times the source never takes a quadratic or exponential multiple of the time.",
 ["inputs"],"all constructs of the supported grammar repeated up to thousands of times or nested up to hundreds of levels x dialects x comment collection",
 "Tests parse statements of a few lines, on which a quadratic or exponential parser is as fast as a linear one.",
 [PR,TK,"sqlast/writer.go","sqlast/walk.go","sqlastutil/rewrite.go"],[("token cursor, look-ahead and backtracking",PR),("per-character loops",TK),("one writer passed down the tree","sqlast/writer.go")],obs=["processor time at growing sizes"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
