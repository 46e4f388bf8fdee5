"""writes /verif/properties.jsonl (kept as a script so that the entries stay readable)"""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})


E2E = ("the end-to-end tests need a live MySQL, compare a handful of fixed rows and are not among the stable tests; "
       "the stable ones only parse SQL")

prop("C01", "What is stored through the proxy is read back unchanged",
     "Every row inserted through the proxy into a table with any mixture of encrypted and plain columns is returned by "
     "a later select exactly as inserted: same values, types, NULLs, column order and number of rows. This holds for "
     "every supported column type, every choice of encryption options and keys, every form of INSERT (with or without "
     "column list, one or several rows, columns in any order) and every value the declared column can hold.",
     ["inputs", "configurations"],
     "all schemas (1-7 columns, int/varchar/char/float/double encrypted in every option combination, other types plain)"
     ", all values within the declared types, all INSERT forms", E2E,
     ["scheduler/handers/rewrite_hander.py", "scheduler/handers/clause/sql_values.py",
      "scheduler/handers/clause/sql_columns.py", "scheduler/handers/decrypt_handler.py", "scheduler/crypto/encrypt.py",
      "scheduler/handers/table.py"],
     [("insert rewriting", "scheduler/handers/clause/sql_values.py"),
      ("result decryption", "scheduler/handers/decrypt_handler.py"),
      ("value encoding", "scheduler/crypto/encrypt.py encode/decode")],
     ["answer of the query controller", "rows stored in the backend"])

prop("C02", "A query through the proxy answers what the same query answers on plaintext",
     "For every supported SELECT (projection, DISTINCT, WHERE with =, <>, <, <=, >, >=, AND, OR, NOT, ORDER BY, LIMIT, "
     "COUNT(*), MAX, MIN, inner/left/right joins on equality, nested selects) the decrypted answer equals the answer "
     "of a plaintext database holding the same rows, as a multiset, and in order where the query asks for one. A "
     "condition that cannot be evaluated on ciphertext is rejected with an error instead of being answered wrongly.",
     ["inputs", "programs", "configurations"],
     "all supported queries over all schemas and table contents, boundary constants, duplicates, NULLs, empty tables",
     E2E,
     ["scheduler/handers/rewrite_hander.py", "scheduler/handers/clause/sql_where.py",
      "scheduler/handers/clause/sql_select.py", "scheduler/handers/clause/sql_from.py",
      "scheduler/handers/clause/function.py", "sql_parsing/formatting.py", "sql_parsing/sql_parser.py"],
     [("condition rewriting", "scheduler/handers/clause/sql_where.py"),
      ("select list rewriting", "scheduler/handers/clause/sql_select.py"),
      ("ORDER BY on the order-preserving column", "scheduler/handers/clause/function.py")],
     ["answer of the query controller compared with a reference evaluation over plaintext"])

prop("C03", "Any history of statements leaves the same data as on a plaintext database",
     "After any sequence of INSERT, UPDATE, DELETE, SELECT, CREATE and DROP statements through the proxy, interleaved "
     "with lost backend connections, statements the backend refuses and restarts of the proxy, the tables hold exactly "
     "what a plaintext database holds after the statements that were reported successful. UPDATE and DELETE touch "
     "exactly the rows their condition selects, and all encrypted forms of one value stay consistent with each other.",
     ["histories", "fault_sequences", "inputs"],
     "all statement histories of bounded length with connection kills, backend errors and proxy restarts in between",
     E2E + "; no test combines more than a few statements or injects a fault",
     ["scheduler/backend/executors/remote_executor.py", "scheduler/handers/clause/sql_set.py",
      "scheduler/handers/clause/sql_where.py", "scheduler/schema/metadata.py", "dbutils/pooled_db.py",
      "dbutils/steady_db.py"],
     [("statement execution and commit", "scheduler/backend/executors/remote_executor.py RemoteExecutor.call"),
      ("update rewriting", "scheduler/handers/clause/sql_set.py")],
     ["answers of the query controller", "rows stored in the backend"])

prop("C04", "The backend never sees plaintext, names or keys of encrypted columns",
     "No statement sent to the user-data server and no stored row or table/column name there contains the text of a "
     "value, literal or search word belonging to an encrypted column, the logical name of the table or of an encrypted "
     "column, or any key. Statements which would have to carry such plaintext are refused before anything is sent. "
     "Plain columns are passed on unchanged.",
     ["inputs", "histories", "configurations"],
     "all schemas, values, conditions and statement sequences, including refused and failing statements",
     "no test looks at what is sent to the backend",
     ["scheduler/handers/rewrite_hander.py", "scheduler/handers/table.py", "scheduler/handers/clause/sql_where.py",
      "scheduler/handers/clause/sql_set.py", "scheduler/handers/clause/sql_values.py"],
     [("anonymous tables and columns", "scheduler/handers/table.py"),
      ("refusal of plaintext conditions", "scheduler/handers/clause/sql_where.py check_plaintext")],
     ["log of SQL texts received by the user-data server", "contents of its tables"])

prop("C05", "SUM and AVG over homomorphically encrypted columns are exact",
     "For a column encrypted with the homomorphic option, SUM equals the true sum and AVG the true mean (to the "
     "documented four decimals) of the rows currently selected, for positive, negative and mixed values, any number of "
     "rows and any other query before or in parallel on the same proxy. No individual value is decrypted by the "
     "backend to compute it.",
     ["inputs", "histories", "configurations"],
     "all homomorphic keys that fit the ciphertext column, all int/float contents whose sum stays in range, several "
     "sums and averages in one query, WHERE conditions, interleaved queries on other tables",
     E2E + "; the paillier sum needs stateful user variables of a real server",
     ["scheduler/schema/metadata.py", "scheduler/backend/executors/remote_executor.py", "scheduler/crypto/encrypt.py"],
     [("server-side product of ciphertexts", "scheduler/schema/metadata.py set_sum_feature"),
      ("query rewriting for sums", "scheduler/backend/executors/remote_executor.py inject_procedure"),
      ("decryption of sums", "scheduler/crypto/encrypt.py HomomorphicCipher.decrypt")],
     ["answer of the query controller"])

prop("C06", "Encryption metadata survives restarts and matches the live tables",
     "After any sequence of creating and dropping tables, failing ones included, and restarting the proxy at any "
     "point, exactly the existing tables remain usable with the same columns, types, keys and options, and every row "
     "stored before can still be read. A table whose creation the backend refused, or that was dropped, leaves no "
     "usable metadata behind, whichever of the two metadata stores (MySQL or SQLite) is configured.",
     ["histories", "crash_points", "fault_sequences", "configurations"],
     "all create/drop/insert/restart sequences with refused creates, lost metadata connections and both stores",
     "no test restarts the proxy or makes a CREATE fail",
     ["scheduler/schema/metadata.py", "scheduler/handers/table.py", "scheduler/backend/executors/remote_executor.py",
      "data/schema-mysql.sql", "data/schema-sqlite.sql"],
     [("persisting and loading", "scheduler/schema/metadata.py Delta"),
      ("removal after failure or drop", "scheduler/backend/executors/remote_executor.py RemoteExecutor.call")],
     ["answers after a restart", "rows of the metadata store"],
     state=[("metadata", "database -> table -> columns, keys and encrypted column names",
             "scheduler/schema/metadata.py Delta.meta and table p_db_meta")])

prop("C07", "Order-preserving encryption preserves order, inverts and is deterministic",
     "For every key, every pair of valid ranges and all integers in the input range: x < y implies E(x) < E(y), "
     "D(E(x)) = x, E(x) lies in the output range, and both are functions of key and input only. Values outside the "
     "ranges, non-integers, and ciphertexts that no plaintext maps to are rejected with an error.",
     ["inputs", "configurations"],
     "all keys, in/out ranges with |in| <= |out| (equal sizes, sizes 1, huge ranges) and values, boundaries included",
     "no stable test calls the cipher",
     ["scheduler/crypto/ope/ope.py", "scheduler/crypto/ope/stat.py", "scheduler/crypto/ope/hgd.py",
      "scheduler/crypto/ope/util.py", "scheduler/crypto/encrypt.py"],
     [("lazy sampling", "scheduler/crypto/ope/ope.py"), ("hypergeometric sampler", "scheduler/crypto/ope/hgd.py")],
     ["return values and exceptions of encrypt/decrypt"])

prop("C08", "Every symmetric cipher inverts its own encryption and nothing else",
     "For every key and every text, decrypting what a symmetric cipher produced with the same key returns the text, "
     "and the deterministic ciphers give equal ciphertexts exactly for equal texts, so equality on ciphertext is "
     "equality on plaintext. The algorithms are the standard ones (AES-256-ECB, SM4-ECB), so data written by one "
     "version stays readable by another.",
     ["inputs"],
     "all keys and all texts (empty, block-boundary lengths, multi-byte characters; texts not ending in NUL)",
     "no stable test calls the ciphers",
     ["scheduler/crypto/encrypt.py"],
     [("ciphers", "scheduler/crypto/encrypt.py AESCipher, SM4CipherBytes, AESCipherBytes, AESCrypto, FernetCipher")],
     ["return values"])

prop("C09", "LIKE on a fuzzy column finds every row that contains the searched text",
     "A LIKE search with %-separated segments of at least three characters on an encrypted fuzzy column returns every "
     "row whose text matches on plaintext, as long as text and segments belong to the same character class, and "
     "returns no row lacking one of the searched segments. Segments shorter than three characters are refused.",
     ["inputs"],
     "all texts and patterns of the documented forms (\"%x%\", \"x%\", \"%x\", \"x%y%\", exact), both character classes",
     E2E,
     ["scheduler/crypto/encrypt.py", "scheduler/handers/clause/sql_where.py"],
     [("n-gram encryption", "scheduler/crypto/encrypt.py FuzzyCipher"),
      ("pattern rewriting", "scheduler/handers/clause/sql_where.py")],
     ["answer of the query controller", "cipher-level substring relation"])

prop("C10", "Homomorphic ciphertexts decrypt to their value and add up",
     "For every key pair and every integer below a third of the modulus in size, decryption inverts encryption, the "
     "product of ciphertexts modulo the square of the modulus decrypts to the sum of the values, and the list forms "
     "for SUM and AVG decrypt to the sum and the mean.",
     ["inputs", "configurations"],
     "all pairs of primes as keys, all lists of in-range integers, empty lists included",
     "no stable test calls the cipher",
     ["scheduler/crypto/encrypt.py"],
     [("homomorphic cipher", "scheduler/crypto/encrypt.py HomomorphicCipher")],
     ["return values"])

prop("C11", "Number encoding for encryption is exact, ordered and invertible",
     "Encoding a FLOAT with at most twelve decimals and decoding it returns the same number, the encoding is strictly "
     "monotone over distinct such numbers, and encoded sums decode to the sum. For DOUBLE the encoding is monotone "
     "over the whole documented range, odd, and decoding inverts it within the documented relative precision.",
     ["inputs"],
     "all representable floats and doubles in the documented ranges, segment boundaries and negatives included",
     "no stable test calls the encoding",
     ["scheduler/crypto/encrypt.py"],
     [("encoding", "scheduler/crypto/encrypt.py encode/decode/stretch/inverse_stretch")],
     ["return values"])

prop("C12", "Parsing, formatting and parsing again changes nothing",
     "For every statement the SQL parser accepts within the supported grammar, formatting its parse and parsing that "
     "text again gives the same parse, and formatting is idempotent from then on. Nothing of the statement (rows, "
     "NULLs, sort directions, limits, aliases, conditions, literals) is lost or invented on the way.",
     ["programs", "inputs"],
     "all statements of the supported grammar generated with nested expressions, joins, subqueries, unions, set "
     "clauses, literals and quoted names", "the stable tests compare 15 fixed statements with fixed parses",
     ["sql_parsing/sql_parser.py", "sql_parsing/formatting.py", "sql_parsing/utils.py", "sql_parsing/types.py",
      "sql_parsing/keywords.py", "sql_parsing/windows.py"],
     [("grammar", "sql_parsing/sql_parser.py"), ("formatter", "sql_parsing/formatting.py")],
     ["parse and format functions"])

prop("C13", "A formatted statement means the same as the statement it was parsed from",
     "Executing the formatted text of any supported statement on a database gives the same answer, or the same change, "
     "as executing the original text. In particular operator precedence and associativity, NOT, NULL handling, string "
     "literals and quoted names keep their meaning.",
     ["programs", "inputs"],
     "all generated SELECT/INSERT/UPDATE/DELETE statements and expressions, executed on generated data",
     "no test executes formatted SQL",
     ["sql_parsing/formatting.py", "sql_parsing/sql_parser.py", "sql_parsing/keywords.py", "sql_parsing/utils.py"],
     [("precedence handling", "sql_parsing/formatting.py Operator, Formatter.op"),
      ("operator parsing", "sql_parsing/utils.py to_json_operator")],
     ["results of executing both texts on SQLite"])

prop("C14", "Parsing is a function of the text alone",
     "The parse of a statement does not depend on what was parsed before, on failed parses, on other threads parsing "
     "at the same time, or on which dialect's parser was built first, and the caller may modify a returned parse "
     "without affecting later ones. A text that is not a statement raises an error and leaves the parser usable.",
     ["histories", "schedules", "inputs"],
     "all sequences of valid, invalid and truncated statements, several threads, all dialect entry points",
     "the stable tests parse one statement at a time in one thread",
     ["sql_parsing/__init__.py", "sql_parsing/utils.py", "parsing/core.py", "parsing/enhancement.py",
      "parsing/whitespaces.py"],
     [("parser singletons and lock", "sql_parsing/__init__.py"), ("scrubbing state", "sql_parsing/utils.py")],
     ["return values and exceptions of the parse functions"])

prop("C15", "ALTER statements on keys and indexes reach the right table and columns",
     "Adding or dropping a primary key, foreign key or index through the proxy has on the stored table the effect the "
     "statement has on the logical one: the constraint is on the stored columns that hold the named logical columns, "
     "and later inserts are accepted or refused accordingly. Keys declared in CREATE TABLE behave the same.",
     ["inputs", "histories"],
     "all spellings (case, whitespace, back quotes) of the supported ALTER forms on encrypted and plain columns, "
     "followed by inserts that violate or respect the constraint", "no stable test covers ALTER",
     ["sql_parsing/__init__.py", "scheduler/handers/rewrite_hander.py", "scheduler/handers/table.py",
      "scheduler/handers/clause/sql_select.py"],
     [("ALTER parsing and formatting", "sql_parsing/__init__.py parse_alter_key, format_alter_key"),
      ("constraint rewriting", "scheduler/handers/table.py get_constraint_key")],
     ["constraints of the stored table", "acceptance of later inserts"])

prop("C16", "Literals and identifiers survive parsing and formatting character by character",
     "Every string literal, in either quote style and with any characters including quotes, backslashes, comment "
     "markers, semicolons and newlines, every number, and every quoted or plain identifier is parsed to exactly the "
     "value it denotes and formatted to a text denoting that value again. No literal can end early or swallow "
     "following text.",
     ["inputs"],
     "all strings as literal contents, all identifiers in back quotes, all int and decimal literals, in any position "
     "of a statement", "the stable tests use a few alphanumeric literals",
     ["sql_parsing/utils.py", "sql_parsing/formatting.py", "sql_parsing/sql_parser.py", "parsing/tokens.py"],
     [("literal rules", "sql_parsing/utils.py"), ("escaping", "sql_parsing/formatting.py escape, _literal")],
     ["parse and format functions"])

prop("C17", "Statement splitting and token formatting keep the text",
     "The non-validating SQL tokenizer loses nothing: the tokens of any text concatenate to that text, splitting a "
     "script yields statements which put together are the script, and cuts only at semicolons outside strings, "
     "comments, quoted names and blocks. The formatting options for case, comments, whitespace, indentation and "
     "operators change whitespace, comments and letter case only: every word, string, quoted name and comment that is "
     "kept stays, strings and quoted names with every character; stripping whitespace and changing case twice is the "
     "same as once. (Indenting an indented text again may move its line breaks; the options that shorten strings or "
     "print Python and PHP code change more by design.)",
     ["inputs", "configurations"],
     "all texts (SQL and arbitrary), all combinations of formatting options",
     "no stable test calls it",
     ["scheduler/compile/parse/lexer.py", "scheduler/compile/parse/engine/statement_splitter.py",
      "scheduler/compile/parse/engine/grouping.py", "scheduler/compile/parse/sql.py",
      "scheduler/compile/parse/formatter.py", "scheduler/compile/parse/filters/"],
     [("tokenizer", "scheduler/compile/parse/lexer.py"), ("grouping", "scheduler/compile/parse/engine/grouping.py"),
      ("filters", "scheduler/compile/parse/filters/")],
     ["parse, split and format functions"])

prop("C18", "Statement classification and metadata extraction are right",
     "For every supported statement, however it is cased, spaced or commented, the extracted statement type, tables, "
     "columns, aliases, values and LIMIT/OFFSET are those the statement names, independently of the formatting of its "
     "text: the columns of each clause with table aliases resolved, column aliases with the columns they stand for, the "
     "values of an INSERT, and the name and text of subqueries in FROM and WITH. A statement kind that is not supported "
     "is reported as such and never taken for another kind.",
     ["programs", "inputs"],
     "all generated statements with known tables, columns, aliases and clauses; whitespace, comment and case variants",
     "three stable tests cover one CREATE, one INSERT and one SELECT of another module",
     ["scheduler/compile/parser.py", "scheduler/compile/token.py", "scheduler/compile/keywords_lists.py",
      "scheduler/compile/utils.py"],
     [("metadata extraction", "scheduler/compile/parser.py Parser")],
     ["properties of the parser object"])

prop("C19", "Generalizing a query hides exactly its constants",
     "The generalized form of a statement contains none of its string or number constants, is the same for two "
     "statements differing only in constants, in comments or in the kind of whitespace, and is a fixed point. Everything "
     "else of the statement is kept, up to the documented abbreviations: digits in names become N, lists of several "
     "values (XYZ), the same LIKE repeated is written once, double quotes and percent signs are dropped. Removing "
     "comments keeps every other word and string.",
     ["programs", "inputs"],
     "all generated statements, with pairs differing only in constants, whitespace and comments",
     "no stable test calls it",
     ["scheduler/compile/generalizator.py"],
     [("generalizator", "scheduler/compile/generalizator.py")],
     ["generalized text"])

prop("C20", "The connection pool never shares, leaks or exceeds connections",
     "Over any history of requesting, sharing, using, closing and dropping connections in any configuration, a "
     "dedicated connection is in the hands of at most one borrower, a shared one of at most the configured number, the "
     "limits on cached, shared and total connections hold, returned connections are rolled back and reused, and a "
     "request beyond the limit blocks or is refused as configured, succeeding once a connection is returned.",
     ["histories", "schedules", "configurations"],
     "all operation histories over all pool configurations, and interleavings of several threads",
     "the pool's own test file needs a live database and is not stable",
     ["dbutils/pooled_db.py"],
     [("pool", "dbutils/pooled_db.py PooledDB"), ("shared connections", "dbutils/pooled_db.py SharedDBConnection")],
     ["connections opened on a fake driver", "objects handed to borrowers"],
     state=[("idle cache", "connections waiting for reuse", "dbutils/pooled_db.py PooledDB._idle_cache"),
            ("connection count", "connections in use", "dbutils/pooled_db.py PooledDB._connections")])

prop("C21", "A hardened connection recovers from losses without silently losing work",
     "Whenever the underlying connection fails, is closed by the server or reaches its usage limit between "
     "transactions, the hardened connection reopens it with the same session setup and the operation succeeds exactly "
     "once; within a transaction a failure is reported to the caller and never silently retried on a new connection. "
     "Errors of the statement itself are passed on unchanged, and no more reconnects happen than configured.",
     ["fault_sequences", "histories", "configurations"],
     "all operation histories with faults injected into connect, ping, cursor, execute, commit and close, over all "
     "configurations (ping modes, usage limits, failure classes, closeable)",
     "no stable test covers it",
     ["dbutils/steady_db.py"],
     [("hardened connection", "dbutils/steady_db.py SteadyDBConnection"),
      ("hardened cursor", "dbutils/steady_db.py SteadyDBCursor._get_tough_method")],
     ["calls received by a fake driver", "results and errors seen by the caller"])

prop("C22", "A request only ever runs on its own server, database and account",
     "Every statement of a request is executed on a connection opened for exactly the host, port, database, user and "
     "password of that request, whatever requests came before, and wrong credentials are refused even when the same "
     "user is connected elsewhere. Equal table names in different databases are kept apart.",
     ["histories", "inputs"],
     "all sequences of requests with overlapping hosts, ports, databases, users and passwords, wrong ones included",
     "the tests use one server, one database and one account",
     ["scheduler/backend/executors/remote_executor.py", "scheduler/backend/execution_context.py"],
     [("pool selection", "scheduler/backend/executors/remote_executor.py connect_db")],
     ["log of connections and statements per fake server"],
     state=[("pools", "connection parameters -> pool", "scheduler/backend/executors/remote_executor.py "
             "connection_pool")])

prop("C23", "Converted queries decrypt with their own identifier only",
     "A query converted for execution by the client gets an identifier of its own, and decrypting rows under that "
     "identifier returns the plaintext of exactly that query's columns, whatever other queries were converted or "
     "decrypted in between and in whatever order. A query that cannot be converted is handed back unchanged and "
     "carries no identifier; an unknown identifier decrypts nothing.",
     ["histories", "inputs", "schedules"],
     "all interleavings of conversions and decryptions of several queries over several tables and databases",
     "no stable test covers it",
     ["scheduler/backend/execution_context.py", "controller/rewriter.py", "scheduler/handers/decrypt_handler.py"],
     [("identifier table", "scheduler/backend/execution_context.py encrypt_sql2, decrypt_data")],
     ["answers of the conversion and decryption endpoints"],
     state=[("identifier table", "identifier -> columns, types, states", "scheduler/backend/execution_context.py "
             "id_sql_map")])

prop("C24", "A batch load stores the same rows as single inserts",
     "Loading a CSV file in a batch leaves in the table the same rows as inserting its lines one by one, for any mixture "
     "of encrypted and plain columns, any column order and any file length, so they are found and decrypted alike.",
     ["inputs", "configurations"],
     "all schemas and CSV contents, chunk boundaries included", "no stable test covers it",
     ["scheduler/backend/executors/remote_executor.py"],
     [("batch load", "scheduler/backend/executors/remote_executor.py batch_insert")],
     ["rows read back through the proxy"])

prop("C25", "CREATE TABLE produces a table that can hold what the logical table can",
     "For every supported logical table the generated statement is valid for the server, each encrypted column gets "
     "exactly the encrypted forms its options ask for, wide enough for the encryption of every value the declared "
     "type allows, and NOT NULL, DEFAULT, PRIMARY KEY, FOREIGN KEY, AUTO_INCREMENT and the table options keep their "
     "effect. Generated names are unique.",
     ["inputs", "configurations"],
     "all generated CREATE TABLE statements with every type, length, option and constraint combination, and values at "
     "the limit of the declared type", E2E,
     ["scheduler/handers/table.py", "scheduler/schema/metadata.py", "sql_parsing/types.py"],
     [("table rewriting", "scheduler/handers/table.py rewrite_table"),
      ("encrypted column types", "scheduler/schema/metadata.py element_type, get_type_and_len")],
     ["table definition at the backend", "acceptance of boundary values"])

prop("C26", "The Presto grammar formats every tree to text that parses to the same tree",
     "For every query the Presto-style parser accepts, the formatted tree parses again to the same tree and formatting "
     "is then a fixed point, so operator precedence, quoting, joins, grouping, set operations and subqueries keep "
     "their structure.",
     ["programs"],
     "all generated queries of the accepted grammar",
     "one stable test parses one query and does not compare the result",
     ["scheduler/lex_module/lacquer/parsers/parser.py", "scheduler/lex_module/lacquer/parsers/lexer.py",
      "scheduler/lex_module/lacquer/formatter/formatter.py", "scheduler/lex_module/lacquer/tree/"],
     [("grammar", "scheduler/lex_module/lacquer/parsers/parser.py"),
      ("formatter", "scheduler/lex_module/lacquer/formatter/formatter.py")],
     ["parse tree and formatted text"])

prop("C27", "The LALR parser generator accepts exactly its grammar",
     "For every context-free grammar given to the parser generator without conflicts, the generated parser accepts a "
     "token sequence exactly when the grammar derives it, and evaluates the productions in the order of the unique "
     "rightmost derivation; precedence declarations resolve ambiguous operator grammars as declared. The first symbol that cannot follow is the one reported, an error rule takes the parser on after it, and parsing ends. The lexer cuts "
     "text into the tokens its rules define, in the documented priority, with correct positions.",
     ["programs", "inputs"],
     "all small conflict-free grammars and all token strings up to a bound; all operator precedence tables; all "
     "generated lexer specifications and texts",
     "the stable tests run three fixed statements through one grammar",
     ["scheduler/lex_module/ply/yacc.py", "scheduler/lex_module/ply/lex.py"],
     [("LALR table construction", "scheduler/lex_module/ply/yacc.py"), ("master regex", "scheduler/lex_module/ply/lex.py")],
     ["acceptance, values and tokens"])

prop("C28", "Dotted paths address the same place for reading and writing",
     "Splitting and joining dotted paths invert each other for every field name, dots in names included; a value set "
     "through a path is what reading that path returns, other paths are unaffected, missing paths read as nothing "
     "without error, and wrapping and unwrapping data returns the original data.",
     ["inputs", "histories"],
     "all nested data, all paths and all sequences of assignments against a plain-dictionary model",
     "no stable test calls it directly",
     ["dots/__init__.py", "dots/datas.py", "dots/lists.py", "dots/nones.py", "dots/utils.py"],
     [("paths", "dots/__init__.py split_field, join_field, literal_field, set_default"),
      ("data wrapper", "dots/datas.py")],
     ["return values"])

prop("C29", "Parser combinators accept exactly the language they describe",
     "A parser built from literals, regular expressions, sequences, alternatives, repetitions, options and lookaheads "
     "accepts a text exactly when the described language contains it, under the documented first-match and greedy "
     "rules, and returns the matched parts in order. Operator tables yield trees with the declared precedence and "
     "associativity, and the text of a combinator's regular expression describes the same language.",
     ["programs", "inputs"],
     "all combinator expressions up to a size, all texts over a small alphabet, all operator tables",
     "the stable tests exercise it through one fixed SQL grammar only",
     ["parsing/core.py", "parsing/enhancement.py", "parsing/expressions.py", "parsing/infix.py", "parsing/tokens.py",
      "parsing/regex.py", "parsing/results.py"],
     [("combinators", "parsing/expressions.py, parsing/enhancement.py"), ("operator tables", "parsing/infix.py")],
     ["parse results and exceptions"])

prop("C30", "HTTP answers present exactly the query's columns and rows",
     "Every HTTP endpoint runs the statement it was given and presents all rows and columns of the answer, in order, "
     "each value under its own column, as valid JSON; failures give an error answer and never an empty success. The "
     "schema endpoint lists every table once with all its columns and their encryption state.",
     ["inputs", "histories"],
     "all endpoints, queries, results and table sets; malformed and failing requests",
     "no stable test starts the service",
     ["handler.py", "service.py", "controller/rewriter.py"],
     [("request handlers", "handler.py"), ("result formatting", "handler.py QueryHandler.format_result")],
     ["HTTP status and body"])

prop("C31", "Concurrent requests do not affect each other",
     "Whatever the interleaving of requests handled at the same time, each gets the answer it would get alone at some "
     "point in a serial order of them, no request sees another's rows, keys or intermediate state, and every "
     "successful write is present afterwards.",
     ["schedules", "histories"],
     "all interleavings, at the granularity of source lines, of two to four concurrent requests, within a bound on the "
     "number of explored schedules", "no test runs two requests at once",
     ["scheduler/backend/execution_context.py", "scheduler/backend/executors/remote_executor.py",
      "scheduler/schema/metadata.py", "scheduler/handers/", "sql_parsing/__init__.py", "dbutils/pooled_db.py"],
     [("shared state", "scheduler/schema/metadata.py Delta; remote_executor.py connection_pool; execution_context.py "
       "id_sql_map"), ("worker threads", "handler.py ThreadPoolExecutor")],
     ["answers per request", "final table contents"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w", encoding="utf8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
