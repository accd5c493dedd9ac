prop("P01", "Any input yields a result or a diagnostic, never a memory error",
"For every sequence of bytes given as configuration or translation input, in any number of files and with any accepted options, every tool of the suite terminates with success or with failure and a diagnostic. "
"It never reads or writes memory it doesn't own, executes undefined behaviour, aborts, or is killed. "
"All tools that read a configuration agree on whether a given one is acceptable.",
["inputs", "configurations"],
"All byte strings as configuration/XLIFF input, all pairs of them for comparing tools, and all documented option combinations.",
"The regression suite runs fixed inputs on un-instrumented binaries and only looks at the exit status or output of a few tools; half of the tools never run at all, memory errors that don't crash pass, and 98 rejection tests accept any failure.",
["parser.c", "parser_field.c", "parser_struct.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "linker.c", "linker_resolve.c", "linker_aliases.c", "config.c", "lang-xliff.c", "writer.c", "diff.c", "writer-diff.c"],
[("lexer and its token buffer", "parser.c: parse_next, parse_advance"), ("configuration linking", "linker.c: ort_parse_close"), ("XLIFF import", "lang-xliff.c: ort_lang_xliff_join")],
["process exit status, standard error, ASan/UBSan reports of the instrumented tools", "libFuzzer over parse, link, write, re-parse, diff, audit and all generators"],
"ASan/UBSan-instrumented tools under hostile inputs and coverage-guided fuzzing",
"Sampled: seeds, generated configurations, byte and token mutants, rule-breaking mutants and libFuzzer-evolved inputs; absence of reports is evidence on the executions observed only.")

prop("P02", "Exactly the well-formed configurations are accepted",
"A configuration that follows the documented language and its well-formedness rules is accepted, and one that breaks any single rule is rejected with a non-zero exit status and a message naming the offending line, whatever surrounds it. "
"A configuration cut off in the middle of a statement is rejected.",
["inputs", "configurations"],
"All well-formed configurations; each documented rule broken at each place in each of them, in any file of the input; all truncations.",
"Each rule is tested by at most a few tiny fixed files, always with the violation as the only content, while rules interact with prior content (order, nesting, several files, which of several same-named things is broken).",
["parser.c", "parser_field.c", "parser_struct.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "linker.c", "linker_resolve.c", "linker_aliases.c", "man/ort.5"],
[("syntax and per-statement checks", "parser*.c"), ("cross-statement checks", "linker.c, linker_resolve.c: ort_parse_close and check_*")],
["exit status and messages of every tool given the configuration"],
"independent model of the language as accept/reject oracle over generated and rule-breaking configurations",
"Rules are those of ort(5) and the parser's diagnostics (about 75 kinds); constructs the documentation leaves open are not tested either way.")

prop("P03", "Printing a configuration preserves all of its meaning",
"The canonical output of the formatter, given any accepted configuration, is itself accepted and describes exactly the same configuration: every role, enumeration, bit-field, structure, field, limit, default, action, query, ordering, constraint, role rule, documentation string and label. "
"Formatting the output again gives identical bytes.",
["inputs", "configurations"],
"All accepted configurations.",
"The suite compares formatter output to fixed files for a few dozen small inputs; interactions of constructs, numeric extremes, escapes and nested roles are not reached.",
["writer.c", "main.c", "parser.c"],
[("configuration writer", "writer.c: ort_write_file")],
["standard output of ort, read back by an independent reader of the language"],
"independent reader and comparison of models over formatter round trips under sanitizers",
"Compares against the model that generated the input and, for shipped configurations, against an independent reading of them.")

prop("P04", "Output depends on a configuration's meaning only, and is reproducible",
"Spellings of one configuration that differ in white space, comments, letter case of names, order of structures, order of fields in unique constraints, interleaving of kinds of declarations, division into files, or use of standard input, give the same output from every generator: identical but for source positions, names of SQL aliases, and the order of languages. "
"Other orderings of statements and declarations that don't bear meaning leave the meaning of the output as it was. "
"Running a tool again on the same input gives the same bytes.",
["inputs", "configurations"],
"All accepted configurations, all their equivalent layouts and file arrangements, all generators.",
"The suite runs each input once, in one layout, and never compares outputs of two runs.",
["parser.c", "linker.c", "writer.c", "lang-sql.c", "lang-nodejs.c", "lang-c-source.c", "lang-javascript.c"],
[("linking and ordering", "linker.c: ort_parse_close"), ("lexer", "parser.c")],
["standard output of every tool on equivalent inputs"],
"metamorphic monitor: byte comparison of all tools' outputs over equivalent inputs",
"Sampled arrangements of generated configurations; output of tools that print source positions is compared with positions masked.")

prop("P05", "Configuration differences are reported exactly",
"Comparing two configurations reports every role, enumeration, item, bit-field, structure, field, attribute, query, label and comment that was added, removed or changed, and nothing that wasn't. "
"The exit status says whether there are any, and swapping the two configurations swaps additions with removals.",
["inputs", "configurations"],
"All ordered pairs of accepted configurations, in any arrangement of files.",
"A few fixed pairs exist, each with one edit; combinations of edits, reordering, several languages, nested roles and pairs without any difference are not covered.",
["diff.c", "writer-diff.c", "maindiff.c"],
[("comparison", "diff.c: ort_diff"), ("report", "writer-diff.c: ort_write_diff_file"), ("exit status", "maindiff.c: main")],
["standard output and exit status of ort-diff"],
"independent reference model of differences as oracle over generated edit sequences, under sanitizers",
"Pairs are a generated configuration and up to several random semantic edits; pairs the textual report cannot distinguish are skipped and counted.")

prop("P06", "The SQL schema is loadable and is exactly the configured schema",
"For every accepted configuration, the SQL schema made of it loads into SQLite without error, and the resulting database has exactly the configured tables, columns, column types, primary keys, nullability, unique columns, multi-column unique constraints, foreign keys with their delete and update actions, and nothing else. "
"The database then enforces them, whatever the names of structures and fields.",
["inputs", "configurations"],
"All accepted configurations, including names that are SQL keywords and arbitrary documentation.",
"The suite compares SQL text with fixed files and never loads a schema in a database.",
["lang-sql.c", "sql.c"],
[("schema writer", "lang-sql.c: ort_lang_sql"), ("tables and columns", "lang-sql.c: gen_struct, gen_field, gen_fkeys")],
["the schema as introspected by SQLite itself (pragmas) and as enforced on attempted writes", "comments of the script"],
"online oracle: SQLite introspection of loaded schemas against the configuration model, under sanitizers",
"Generated and shipped configurations; SQLite version of this sandbox.")

prop("P07", "Schema migrations give the new schema and keep the data",
"Given an old and a new configuration, the migration tool either refuses, exactly for the changes documented as not migratable (fewer with the destructive option), or makes a script that, run on a populated database of the old schema, succeeds, leaves every retained row and value as it was, gives added fields their defaults, and results in the new schema. "
"Nothing is dropped unless the destructive option is given.",
["inputs", "configurations", "histories"],
"All pairs of accepted configurations, all contents of the old database, with and without the destructive option.",
"The suite compares text of a few fixed scripts; none is ever run, so scripts in an order or with syntax that SQLite refuses, or that drop the wrong thing, pass.",
["lang-sql.c", "sqldiff.c", "diff.c"],
[("script writer and refusals", "lang-sql.c: ort_lang_diff_sql"), ("options and exit status", "sqldiff.c: main")],
["exit status and diagnostics of ort-sqldiff", "the database after running the script: schema, rows, defaults, integrity and foreign-key checks"],
"differential monitor: migration scripts executed on populated SQLite databases, checked against models of both configurations",
"Histories of one to several edits between generated configurations. Dropped columns are documented to remain in place.")

prop("P08", "Audits report exactly what a role can reach",
"For every accepted configuration and role, the audit tools report exactly the operations that role may invoke and the structures and fields it can thereby read or export, no more and no less, inheritance of roles, the roles that stand for all, references between structures and export restrictions included; the JSON report says the same as the textual one and is valid JSON.",
["inputs", "configurations"],
"All accepted configurations and all of their roles.",
"A few fixed configurations are compared with fixed text; the JSON audit has no test.",
["audit.c", "mainaudit.c", "audit-json.c"],
[("reachability", "audit.c: ort_audit"), ("reports", "mainaudit.c, audit-json.c")],
["standard output of ort-audit and ort-audit-json"],
"independent reachability model as oracle over generated role trees, under sanitizers",
"Function names of unnamed duplicate operations are not compared.")

prop("P09", "The generated C interface does what the configuration says",
"For every accepted configuration, the generated C schema, header and source compile together, and the operations behave as configured on any database contents: an insert stores exactly the values given and returns the new identifier, or refuses when a constraint forbids it; an update or delete changes exactly the rows that meet its constraints, and only as its modifiers say; a search, list, iterate or count gives exactly the rows its terms select, in its order and within its limit, offset, distinct and grouping clauses, with every field, null marker and nested structure as stored, and passwords only matching their hash. "
"Transactions apply wholly or not at all. The generated code neither leaks nor misuses memory, nor leaves statements open.",
["inputs", "configurations", "histories"],
"All accepted configurations; all sequences of operations and transactions with all arguments on all database contents.",
"The suite only compiles a few fixed outputs when the C libraries are installed (they aren't here) and never runs any of the generated C code.",
["lang-c-source.c", "lang-c-header.c", "lang-c.c", "lang.c", "lang-sql.c"],
[("SQL statements", "lang.c: gen_sql_stmts, gen_sql_stmt_schema, gen_sql_stmt_join"), ("operations", "lang-c-source.c: gen_insert, gen_update, gen_search, gen_list, gen_iterator, gen_count, gen_fill_field, gen_reffind"), ("declarations and types", "lang-c.c, lang-c-header.c")],
["results of every generated function, recorded by a driver", "database contents at the end", "parameters and statements passed to the database layer", "ASan/UBSan/LSan reports of the generated code"],
"online oracle: reference model of the database judging results of compiled, sanitized interfaces",
"The database, web and password libraries are replaced by stand-ins that follow their manuals and check their use. Ambiguous readings (grouping with terms, limits over hashed passwords) are accepted either way.")

prop("P10", "Roles are enforced by the generated C interface",
"In a program using the generated C interface of a configuration with roles, an operation succeeds exactly if the current role is one that the configuration grants it to, or inherits from one; otherwise the program ends before the operation reads, returns or changes anything. "
"The current role can be changed exactly as documented: from the default role to any, to an ancestor, to itself, and to none, from where there is no return. "
"Exported objects lack the fields withheld from the role that fetched them, whatever the role at the time of exporting, and nothing else.",
["inputs", "configurations", "histories"],
"All accepted configurations with roles, all sequences of role changes, and all operations in each role.",
"No test of the suite runs generated code.",
["lang-c-source.c", "lang-c-header.c", "linker_resolve.c", "linker.c"],
[("role sets of operations", "lang-c-source.c: gen_func_open, gen_func_roles, gen_func_role_transitions"), ("stored roles and exports", "lang-c-source.c: gen_func_json_data, gen_fill"), ("inheritance", "linker_resolve.c, parser_roles.c")],
["results and exit status of each operation, run in a process of its own in every role", "the bytes it wrote before ending", "exported JSON", "database contents at the end"],
"online oracle: access-control model judging every operation of compiled, sanitized interfaces in every role",
"The database layer's own role checks are those of a stand-in following its manual, which ends the process on a violation.")

prop("P11", "The generated Node.js interface does what the configuration says",
"For every accepted configuration, the generated TypeScript is well-typed, and its database methods behave as configured on any database contents: an insert stores exactly the values given and returns the new identifier, or -1 when a constraint forbids it; an update or delete changes exactly the rows that meet its constraints, and only as its modifiers say, returning whether it could; a search, list, iterate or count gives exactly the rows its terms select, in its order and within its limit, offset, distinct and grouping clauses, with every field, null and nested structure as stored in its documented type, passwords stored hashed with the configured cost and only matching their hash. "
"Transactions apply wholly or not at all and lock as their kind says.",
["inputs", "configurations", "histories"],
"All accepted configurations; all sequences of operations and transactions with all arguments on all database contents.",
"The suite compares a few outputs with stored copies at best and never runs the generated TypeScript.",
["lang-nodejs.c", "lang.c", "lang-sql.c"],
[("SQL statements", "lang.c: gen_sql_stmts"), ("operations", "lang-nodejs.c: gen_insert, gen_update, gen_query, gen_fill, gen_reffind"), ("transactions", "lang-nodejs.c: ort_lang_nodejs, db_trans_open_*")],
["results and types of every method, recorded by a driver", "exceptions", "what a second connection may do while a transaction is open", "database contents at the end", "costs asked of bcrypt", "the type checker's diagnostics"],
"online oracle: reference model of the database judging the results of the transpiled interface; type checker over samples",
"better-sqlite3, bcrypt and validator are replaced by stand-ins over Node.js' own SQLite that follow their manuals. Ambiguous readings are accepted either way, as in P09.")

prop("P12", "Roles are enforced by the generated Node.js interface",
"In a program using the generated Node.js interface of a configuration with roles, an operation succeeds exactly if the current role is one that the configuration grants it to, or inherits from one; otherwise the process aborts before the operation reads, returns or changes anything. "
"The current role can be changed exactly as documented: from the default role to any, to an ancestor, to itself, and to none, from where there is no return. "
"Exported objects lack the fields withheld from the role that fetched them, whatever the role at the time of exporting, and nothing else, and carry the stored values.",
["inputs", "configurations", "histories"],
"All accepted configurations with roles, all sequences of role changes, and all operations in each role.",
"No test of the suite runs generated code.",
["lang-nodejs.c", "linker_resolve.c", "linker.c"],
[("role checks of operations", "lang-nodejs.c: gen_rolemap, gen_role"), ("role changes", "lang-nodejs.c: gen_ortctx, db_role"), ("exports", "lang-nodejs.c: db_export_*")],
["results and outcome of each operation in every role, with process.abort() recorded", "exported objects", "database contents at the end", "the type checker's diagnostics"],
"online oracle: access-control model judging every operation of the transpiled interface in every role",
"process.abort() is replaced by an exception that ends the operation.")

prop("P13", "Generated validators accept exactly what the configuration allows",
"For every accepted configuration, the generated C and Node.js validators exist for every field that isn't a structure, under their documented names, and accept an input exactly if it's of the field's type and meets all of its limits: integers, dates, reals, bits and enumeration values by value, and text, e-mail, passwords and binary data by length in bytes. "
"They yield the value that the input denotes. In C, the array of validators lists each under its form name at its enumeration's index.",
["inputs", "configurations"],
"All accepted configurations, all byte strings (C) and all strings, numbers, undefined and null (Node.js).",
"No test of the suite runs generated code.",
["lang-c-source.c", "lang-c-header.c", "lang-c.c", "lang-nodejs.c"],
[("C", "lang-c-source.c: gen_valids, gen_valids_field, gen_valid_keys"), ("Node.js", "lang-nodejs.c: gen_ortns_express_valid, gen_ortns_express_valids")],
["verdict and value of each validator, called directly and through valid_keys or ortValids", "names and order of the arrays", "ASan/UBSan reports of the generated C"],
"independent model of types and limits judging executions of the generated validators around every boundary",
"The basic checks are those of kcgi and validator, for which stand-ins follow their manuals. Spellings those may or may not take (hexadecimal, exponents, padding, leading zeroes) and limits on bit-fields are open.")

prop("P14", "JSON of the generated C interface is faithful both ways",
"The generated C code exports an object as valid JSON with exactly its exportable fields and their values: strings of any content, integers and reals, base64 of binary data, null for null fields, nested objects likewise. "
"Its import functions, given any bytes of any length with the tokens the parser made of them, or fewer, read back any object written in JSON in any spelling with exactly its values, refuse objects with unknown fields, values of the wrong type or out of range, nulls where there can't be any, or missing tokens, and never read or write memory that isn't theirs or leak any; when any of their allocations fails they report so, and what they leave can be cleared.",
["inputs", "configurations", "fault points"],
"All accepted configurations, all values of their objects, all byte strings as JSON, all numbers of tokens.",
"No test of the suite runs generated C code.",
["lang-c-source.c", "lang-c.c", "jsmn.c", "lang-c-header.c"],
[("export", "lang-c-source.c: gen_json_out, gen_json_out_field"), ("import", "lang-c-source.c: gen_json_parse"), ("tokeniser, strings and numbers", "jsmn.c")],
["result of jsmn_parse and the import functions on buffers and token arrays of exact size", "imported structures", "exported bytes", "ASan/UBSan/LSan reports of the generated code"],
"independent JSON reader as oracle over documents and hostile mutants imported by compiled, sanitized code",
"Where JSON or the manual leaves the outcome open (repeated keys holding objects, embedded NUL, unpaired surrogates, non-JSON that the tolerant tokeniser accepts) only memory safety is decided.")

prop("P15", "The JSON representation of a configuration is the configuration",
"For every accepted configuration, in one or several files, ort-json writes a valid JSON document of the types declared in ort-json.ts, and it says all that the configuration says and nothing else: every structure, field, default, limit, reference, enumeration, bit-field, label, comment, query, update, delete, insert, unique clause, role and grant, with the file and line of each, and with resolved parts (chains of query terms, effective roles of operations and fields, bit masks) that agree with the rest. "
"Formatting the document with ort-json.ts yields a configuration that is accepted and means the same.",
["inputs", "configurations"],
"All accepted configurations, with any text in comments, labels and defaults.",
"The suite doesn't run ort-json.",
["lang-json.c", "json.c", "ort-json.ts"],
[("JSON", "lang-json.c: ort_lang_json"), ("formatting", "ort-json.ts: ortJsonConfigFormat.toString")],
["JSON read back into a model, with consistency of all redundant parts", "diagnostics of the type checker for documents as values of the declared type", "text produced by the formatter run in Node.js", "ASan/UBSan reports"],
"offline oracle: independent readers of JSON and of ort(5) compare the outputs of sanitized runs and of the formatter with the input; type checker over samples",
"Columns at the end of lines are left open (the parser notes that it loses them).")

prop("P16", "Translations are extracted, updated and merged without loss",
"ort-xliff extracts exactly the default labels of a configuration, each once, as a well-formed XLIFF 1.2 document, whatever characters they have. "
"Updating a document keeps its languages and every translation in it and adds exactly the labels it lacks. "
"Merging documents gives a configuration that differs from the original only by labels of the documents' languages: the translation of the default label, or with -c otherwise a copy of it, and never in place of an existing one; if a translation is missing it fails, saying so, and writes nothing. "
"Documents that aren't XLIFF 1.2, lack a language, identifier, source or target, or name no language that ort(5) can express, are refused with a message. The forms of the command line are as documented.",
["inputs", "configurations"],
"All accepted configurations, all XLIFF documents in any spelling, all documented invocations.",
"The suite merges and extracts a few fixed files, and never updates one.",
["lang-xliff.c", "xliff.c", "writer.c"],
[("extraction", "lang-xliff.c: ort_lang_xliff_extract, xliff_extract_unit"), ("merging and updating", "lang-xliff.c: ort_lang_xliff_join, ort_lang_xliff_update, xliff_join_unit"), ("parser of XLIFF", "lang-xliff.c: xstart, xend, xtext"), ("command line", "xliff.c")],
["XLIFF read by an independent parser", "merged configurations read by an independent ort(5) parser and by ort itself", "exit status, messages and absence of output on failure", "ASan/UBSan/LSan reports"],
"offline oracle: model of extraction, update and merge compared with outputs of sanitized runs on generated labels and documents",
"Configurations with enumerations or bits that lack a default label may be refused.")
prop("P17", "Formatters fill documents with the objects they are given",
"The TypeScript that ort-javascript writes for any configuration compiles, and at run time does what its manual says for every object of the data interfaces and every document: "
"elements having the documented classes, and no others, get the field's text, value, ISO date, checked, selected or hidden state; fields that are not exported do nothing; nulls hide and show as documented and change no text. "
"fill includes the element, fillInner does not, the ByClass forms fill each matching element, the Array forms repeat the first child for each object and hide what is empty; callbacks are invoked once for each key and filled element with the value, also for nulls, in the order of an array. "
"Constants of enumerations and bit-fields have the configured values, format writes the label in the document's language, otherwise the default one, whatever characters it has, and the 64-bit numbers calculate as such.",
["inputs", "documents", "configurations"],
"All accepted configurations, all objects of their interfaces, all documents, all callbacks.",
"The suite compares the text of a few generated modules and a few 64-bit results; it executes no formatter, as this needs a browser's document model that isn't installed.",
["lang-javascript.c", "ortPrivate.ts", "javascript.c"],
[("classes and methods for structures", "lang-javascript.c: gen_js_field, gen_object, gen_types"), ("enumerations and bit-fields", "lang-javascript.c: gen_enum, gen_bitf, gen_labels"), ("filling of elements and 64-bit numbers", "ortPrivate.ts: _fillField, _fillBitsChecked, _fillDateValue, Long")],
["document trees after each call", "callbacks in order with element, name and value", "constants and results of 64-bit operations", "compiler's diagnostics on correct and incorrect uses", "ASan/UBSan reports"],
"offline oracle: model of filling, labels and 64-bit arithmetic compared with recorded executions of the generated code in a document model of our own",
"Empty value attributes, fractions or signs in values of bits-checked beyond rejection, mul that overflows and the sign of zero are unspecified.")
prop("P18", "Header, implementation and manual describe one C interface",
"For any accepted configuration and any choice of options, the header of ort-c-header declares exactly the functions that ort-c-source with corresponding options defines, with one type each, and nothing is left undefined; both compile without diagnostics, the header also when included several times. "
"Any division of the parts (base, database functions, JSON output, JSON input, validation) over several headers and sources that together have each part once gives the same functions and types. "
"The manual of ort-c-manpage is well-formed whatever comments the configuration has, documents each operation of the configuration with a prototype that agrees with the header, the arguments in order with their types, the comment of each object in full, and exactly the roles that may do an operation; the comments of objects are in the header.",
["inputs", "options"],
"All accepted configurations, all combinations of -j -J -v -s -N -I -h -g, all comments.",
"The suite compiles a few generated files for some fixed options; it runs neither ort-c-manpage nor any division in several headers and sources.",
["lang-c-header.c", "lang-c-source.c", "lang-c-manpage.c", "lang-c.c", "cheader.c", "csource.c", "cmanpage.c"],
[("declarations", "lang-c-header.c: ort_lang_c_header; lang-c.c: gen_func_*"), ("definitions", "lang-c-source.c: ort_lang_c_source"), ("manual", "lang-c-manpage.c: ort_lang_c_manpage, gen_doc_block")],
["prototypes as recorded by the compiler", "symbols of linked objects", "parsed pages of the manual", "ASan/UBSan reports"],
"offline oracle: prototypes recorded by the compiler, symbol tables of linked objects and parsed manuals compared with each other and with the configuration",
"Names of parameters are not compared; a rule that no role at all satisfies may be documented as an empty list; how a comment is divided in words and lines of a header isn't specified.")

prop("P19", "Running out of memory, space or input fails cleanly",
"Whenever an allocation fails, output cannot be written (in whole or in any part, for a moment or for good) or input cannot be read to its end, each of the tools, for any configuration, ends with its exit status for errors: "
"it never crashes, hangs, or uses invalid memory, and never exits successfully with output that isn't what it would have written otherwise.",
["inputs", "fault points"],
"All configurations, valid or not, all tools and options, every single allocation, output operation and input operation, and such that never recover.",
"The suite never makes an operation fail.",
["main.c", "cheader.c", "csource.c", "cmanpage.c", "javascript.c", "json.c", "nodejs.c", "rust.c", "sql.c", "sqldiff.c", "maindiff.c", "mainaudit.c", "audit-json.c", "xliff.c", "parser.c", "linker_resolve.c", "config.c", "audit.c", "diff.c"],
[("status of failures", "main.c and the other tools: main"), ("failures while parsing and linking", "parser_*.c, linker*.c, config.c: allocations and gen_err"), ("failures of generators", "lang-*.c, writer.c, writer-diff.c: results of output operations")],
["each allocation and output operation with its chain of callers", "exit status and output with one of them failing", "full devices and limited file sizes", "ASan/UBSan reports"],
"fault injection at observed call sites in sanitized tools, with the undisturbed run as the oracle",
"Memory not freed on the way to an error is not judged, nor whether and how an error is worded.")

prop("P20", "The generated Rust interface does what the configuration says",
"For every accepted configuration whose names stay distinct in title case, the module generated by ort-rust compiles against its documented crates, whatever names the configuration uses, including those that Rust reserves. "
"Every insert, query, update and delete of it, from an empty database on, has the results that the configuration prescribes: rows that meet the terms, in order, with null references followed, counts, grouping, distinct rows, limits and offsets, values as stored, and errors only if a constraint is violated. "
"Passwords are hashed with the configured cost, and verified when searched for. Exported objects are valid JSON with the stored values of exactly the fields that may be exported. "
"With roles, an operation succeeds exactly if the current role is one that the configuration grants it to, or inherits from one, and otherwise panics without reading or changing anything; the role can be changed exactly as documented; and exported objects lack the fields withheld from the role that fetched them.",
["inputs", "configurations", "histories"],
"All accepted configurations, all sequences of operations with all values, and all sequences of role changes.",
"The suite's Rust tests need crates from the network and sample a handful of configurations.",
["lang-rust.c", "lang.c", "rust.c"],
[("operations", "lang-rust.c: gen_insert, gen_query, gen_update, gen_fill, gen_reffind"), ("statements", "lang.c: gen_sql_stmts, gen_sql_stmt_schema"), ("exports", "lang-rust.c: gen_field_to_json"), ("roles", "lang-rust.c: gen_rolemap, gen_ortctx_dbrole")],
["results and errors of each operation", "costs passed to bcrypt", "exported JSON", "panics of operations in every role", "database contents at the end", "the compiler's diagnostics"],
"model of the configured operations and of access control judging every operation of the compiled interface over SQLite",
"rusqlite, libsqlite3-sys, bcrypt, base64, num-traits and num-derive are stand-ins written from their documentation.")

prop("P21", "Filling a page by ort-json.ts shows the configuration",
"For every configuration in JSON and every page with the classes that ort-json.ts documents, filling in the page (as a whole, by class, or by one of the functions for parts) makes each element what its classes say: "
"text, attributes, identifiers and links with the configured prefixes, hidden or shown, and lists with one copy of their first child per object, in order, less the excluded ones. "
"Links lead to the identifiers of the same objects. Whatever has no such class, or is outside of its scope, stays as it was, as does the configuration. "
"Filling in a page again with another configuration gives what filling it in anew does, and the callback of each kind is invoked once per object shown, with its element and the given argument.",
["inputs", "configurations", "histories"],
"All configurations, all pages with elements of any classes, prefixes, exclusions and callbacks, and all sequences of filling in.",
"The suite has no tests of ort-json.ts.",
["ort-json.ts"],
[("whole pages", "ort-json.ts: fill, fillByClass"), ("structures", "ort-json.ts: fillStrctObj, fillFieldObj, fillUpdateObj, fillSearchObj"), ("lists", "ort-json.ts: fillRolemap, fillLabelSet, fillUrefs, fillSents, fillOrds")],
["the document after each filling in", "callbacks", "the configuration before and after", "exceptions"],
"reference renderer of the documented classes judging the document that the real code filled in",
"The document object model is a stand-in written from the DOM standard.")



prop("P22", "Library calls change nothing and don't interfere",
"What any function of the libraries gives (output, queue, or messages) depends only on the configurations and arguments it is given: it is what the same call gives in a fresh process, and what the tools write, "
"whatever other configurations were parsed (well-formed or not), written, compared, audited, translated or freed before, and whatever calls other threads make at the same time, be it on the same configurations or on others. "
"Functions that take a configuration they aren't to change leave all of it as it was, and leave streams open and where they ended. "
"Freeing a configuration or a result releases all of it, nothing else, and freeing nothing is allowed.",
["histories", "schedules", "inputs"],
"All sequences of calls on all configurations, from any number of threads.",
"The suite runs the tools, each a process with one or two configurations and one call.",
["ort.h", "config.c", "parser.c", "linker.c", "linker_aliases.c", "linker_resolve.c", "diff.c", "audit.c", "log.c", "writer.c", "writer-diff.c", "lang.c", "lang-c.c", "lang-c-header.c", "lang-c-source.c", "lang-c-manpage.c", "lang-javascript.c", "lang-json.c", "lang-nodejs.c", "lang-rust.c", "lang-sql.c", "lang-xliff.c"],
[("life of a configuration", "config.c: ort_config_alloc, ort_config_free; linker.c: ort_parse_close"), ("functions on complete configurations", "lang-*.c, writer*.c, diff.c, audit.c: functions taking const struct config"), ("translations joined", "lang-xliff.c: ort_lang_xliff_join"), ("messages", "log.c; writer.c: ort_write_msg_file")],
["results of calls in random histories and threads", "each memory block of each configuration before and after each call", "blocks left after freeing", "ThreadSanitizer, ASan, UBSan and LeakSanitizer reports"],
"sanitized application making random calls from several threads, each result compared with that of a fresh process, and the memory of configurations watched for changes",
"Functions are called as their manuals demand: a configuration that is being changed is used by one thread only.")

prop("P23", "Configurations and differences in memory are as described",
"The configuration that a program gets from parsing any accepted files is the one they describe, in the form that ort(3) describes: objects in their queues, each linked to its parent, "
"references to the fields they name, dotted names with their chains, names and aliases, role assignments with all of their inheritance, flags exactly when they hold, values of enumerations assigned in order, languages and positions. "
"The queue that ort_diff(3) makes of two configurations lists each object once, as added, removed, changed or the same, paired by name; "
"the aspects listed as changed are exactly those that differ, and an object is listed as changed exactly if it or one of its parts is.",
["inputs"],
"All accepted configurations and pairs of such.",
"The suite only compares printed output of some files, which many members never reach.",
["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "linker.c", "linker_aliases.c", "linker_resolve.c", "diff.c", "config.c", "ort.h"],
[("parts and positions", "parser_*.c"), ("references", "linker_resolve.c: linker_resolve"), ("aliases and uniqueness", "linker_aliases.c: linker_aliases_create, linker_aliases_resolve"), ("flags", "parser_struct.c: parse_config_search; linker.c: check_reffind"), ("differences", "diff.c: ort_diff")],
["every member of every object of configurations", "every entry of queues of differences", "ASan/UBSan reports"],
"dump of the in-memory structures by an application, checked against the documented invariants, the described configuration and each other",
"Whether a query by equality with a unique field of another structure counts as unique isn't specified.")

prop("P24", "Messages are about the right place",
"Errors and warnings that the parser and linker emit name the file, line and column of what they are about, be it in the first or a later file and however the files are laid out: "
"laying them out differently (white-space, line breaks, comments) changes no message but for its position, which follows the same token. "
"If an otherwise valid configuration breaks a rule in one place, the error is placed at what breaks it (or at the later of two that conflict, or where it names the other), and is gone without it. "
"Tools exit non-zero exactly if there's an error, and all tools have the same messages for the same files.",
["inputs"],
"All files, accepted or not.",
"The suite compares messages of few files, and none with several files, odd layouts or most errors.",
["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "linker.c", "linker_aliases.c", "linker_resolve.c", "log.c"],
[("positions", "parser.c: parse_next, parse_point"), ("messages", "log.c: ort_msg, ort_msgv"), ("what's at fault", "linker*.c: gen_errx calls")],
["messages of tools for the same tokens laid out in two ways", "messages for configurations with one broken rule, and without the statement at fault"],
"metamorphic monitor over layouts and removals of what's at fault; position oracle for planted rule violations",
"Messages for unknown enumerations and bit-fields, recursive structures and roles of unknown operations are placed at the structure. Columns at ends of lines aren't specified.")


prop("P25", "The audit page shows the audit",
"audit.html with audit.js, next to the output of ort-audit-json -s, shows exactly the audit of the role: its name and documentation; "
"for each structure its accessible fields and whether they are exported, the share of exported fields, the queries that reach it with "
"the number of paths and whether one exports, and all permitted operations, by kind; the operations of all structures by kind; and their numbers. "
"All are sorted by name. Following a link shows the documentation (or its lack) of that field or operation, or all paths of that access, as text and never as markup. "
"The page starts with the overview, and shows an error if there's no audit.",
["inputs"],
"All accepted configurations and roles.",
"The suite has no test of the page.",
["audit.js", "audit.html", "audit-json.c"],
[("filling in the page", "audit.js: init, auditFill, fill, fillVec"), ("following links", "audit.js: fillShowMore, fillDataField, fillAccessfrom"), ("template", "audit.html")],
["the page run in a document model, read as what's visible in it at first and after following each link"],
"page run in a document model with audits of generated configurations; oracle comparing what's visible with the audit",
"The audit itself is judged by P08. Styles aren't judged but for elements of class hide.")


prop("P26", "Suspect declarations are warned about, others aren't",
"An accepted configuration gets a warning on standard error, at the statement, for each: single-result query that isn't by equality with unique fields and isn't limited to one; "
"multiple-result query that is by equality with unique fields of its structure; null operator on a field that's never null, be it of a query, update or deletion; "
"query, update, deletion or insertion that no role may use although there are roles; set of roles of which one includes another; limit, offset or name given again; "
"password that's explicitly not exported, row identifier that's explicitly unique, and old keyword of bit-fields. "
"Nothing else in an accepted configuration is warned about, and warnings make no tool fail.",
["inputs"],
"All accepted configurations.",
"The suite doesn't look at warnings.",
["linker.c", "linker_resolve.c", "linker_aliases.c", "parser_field.c", "parser_struct.c", "parser_bitfield.c", "log.c"],
[("queries", "linker.c: check_searchtype; linker_aliases.c: check_search_unique"), ("roles", "linker.c: check_roleops, check_unique_roles_tree"), ("constraints", "linker_resolve.c: null operators"), ("redundant or repeated", "parser_field.c, parser_struct.c, parser_bitfield.c: parse_warnx calls")],
["each line of standard error of tools for each statement of generated configurations"],
"oracle giving the number of warnings due for each statement, compared with the messages of sanitized tools",
"Fields of structures that may be missing, and unique fields of other structures, may be warned about or not; wording and columns aren't judged.")
