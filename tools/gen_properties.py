"""Writes /verif/properties.jsonl (kept as a script so that long lines stay editable)."""
import json, os
WQL = "wiggle_query_language/"
PH = WQL + "clauses/parsing_helpers/"
G = WQL + "graph/"
SG = "wiggle_shell/core/select_gdbms/"
Q = "wiggle_shell/core/query/query.py"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

STORED = [("stored graph", "nodes by number, each with the relationships that start at it", "database_<name>.json"),
          ("indexes", "relationships per node, node labels, relationship names", "indexes_<name>.json"),
          ("next number", "the next number to give out", "wiggle_number_<name>.txt")]

prop("C01", "MAKE stores exactly the graph that the query describes",
 "A query of well formed MAKE statements is accepted, and after an accepted query the database holds, besides what it held before, exactly one new node per node written in its MAKE statements and one new relationship per relationship written in them: every node with its own label and properties, every relationship with its own name and properties, stored with the node it starts at and pointing from and to the nodes that its arrow says. "
 "This holds for each of the one, two and three node patterns, each arrow direction, any number of patterns and MAKE statements in one query, and whatever handles, labels, names and properties its parts carry.",
 ["inputs"], "every query built of up to three MAKE statements, up to three patterns each, over all pattern shapes, directions and placements of labels, names, handles and properties from a small alphabet",
 "The tests look at a few fixed statements and mostly at intermediate objects; none reads back the stored graph for every shape, direction and position, and the right node of a three node pattern was stored wrongly without a failing test.",
 [WQL+"clauses/make/make.py", WQL+"clauses/make/transform/make_pre.py", WQL+"clauses/make/parse_make/parse_make_statement.py", WQL+"clauses/transform_helpers/relationships.py", WQL+"clauses/regexes/patterns/patterns_helpers.py"],
 [("process_parsed_make_list", WQL+"clauses/make/transform/make_pre.py"), ("make_nodes / make_node / make_relationship", WQL+"clauses/make/make.py"), ("relationship_is_left_to_right", WQL+"clauses/transform_helpers/relationships.py")],
 STORED[:1], ["the database file after the query"])
prop("C02", "A query that is refused changes nothing",
 "When a query is refused with an error, whatever is wrong with it and wherever in the query (any statement, pattern, node, relationship, property or clause), the stored nodes and relationships, the indexes and the next number are exactly what they were before it. "
 "A later correct query behaves as if the refused one had never been sent.",
 ["inputs", "histories"], "every placement of every kind of error in a query of several good statements, patterns and clauses, on empty and on filled databases",
 "The tests check that a malformed fragment raises; none checks the files after a refused multi-part query, so an error found after part of the query was stored goes unseen.",
 [Q, WQL+"clauses/make/make.py", PH+"parse_statement_checks.py", PH+"parse_properties.py"],
 [("parse everything before executing", Q), ("build every node before the first write", WQL+"clauses/make/make.py")], STORED, ["the three files of the database"])
prop("C03", "No part of an accepted MAKE or FIND is dropped or changed",
 "A query with a MAKE is either refused or every label, name, property name, value and relationship arrow written in its MAKE statements is stored: no text inside a statement is skipped, cut short, merged, or reinterpreted as something else. "
 "Likewise a FIND is either refused or used with every label, name, handle and property of its pattern.",
 ["inputs"], "every sequence of tokens (brackets, colons, commas, arrows, words, quotes, values) up to a length, and every small edit of well formed statements",
 "Tests fix a handful of good and bad strings; the space of almost-correct input, where a lenient parser skips what it does not recognise, is not sampled at all.",
 [WQL+"clauses/regexes/patterns/patterns_helpers.py", WQL+"clauses/regexes/patterns/properties.py", WQL+"clauses/regexes/patterns/clause_helpers.py", PH+"extract_statements.py", PH+"parse_statement_checks.py", PH+"parse_properties.py"],
 [("check_nodes_rels_patterns", PH+"parse_statement_checks.py"), ("leftover check of parse_properties", PH+"parse_properties.py"), ("statement extraction", PH+"extract_statements.py")], STORED[:1], ["the database file against the tokens of the query"])
prop("C04", "Every node and relationship keeps a number of its own, never reused",
 "Nodes and relationships of one database share one number space: no two of them ever have the same number, a number once given out is never given to something else, and the stored next number is always above all numbers in use. "
 "A node is stored under its own number, and a query takes as many numbers as it makes nodes and relationships, also after refused queries, FINDs, restarts, the use of other databases, and across the growth from one to several digits.",
 ["histories", "inputs"], "every history of MAKEs of all shapes, refused queries, FINDs, restarts and switches between databases up to a depth, from empty databases and from ones at digit boundaries",
 "Unit tests call the counter and the transformer separately for one statement; uniqueness is a property of whole histories of queries, processes and databases.",
 [G+"state/wiggle_number.py", WQL+"clauses/make/make.py", WQL+"clauses/make/transform/make_pre.py", G+"database/database.py"],
 [("get_current_wiggle_number / update_wiggle_number", G+"state/wiggle_number.py"), ("numbering in process_parsed_make_list", WQL+"clauses/make/transform/make_pre.py")], STORED, ["database and number files after every step"])
prop("C05", "The indexes say exactly what is stored",
 "After every query, accepted or refused, the label index holds exactly the labels of the stored nodes, the relationship name index exactly the names of the stored named relationships, and the relationship index lists for every node with outgoing relationships exactly their numbers, and no other node. "
 "The index loading functions return the same.",
 ["histories", "inputs"], "every history of queries of all shapes, names and numbers of patterns up to a depth, with restarts and wrong queries in between",
 "The tests add literal items to one index at a time; that the three indexes agree with the stored graph after arbitrary histories is not checked anywhere.",
 [WQL+"clauses/make/make.py", G+"database/indexes/index_helpers.py", G+"database/indexes/node_relationships_index.py", G+"database/indexes/node_labels_index.py", G+"database/indexes/relationship_names_index.py"],
 [("add_indexes", WQL+"clauses/make/make.py"), ("add_items_set_to_index_by_name", G+"database/indexes/index_helpers.py"), ("add_items_to_node_relationships_index", G+"database/indexes/node_relationships_index.py")], STORED, ["indexes file against database file"])
prop("C06", "What is stored stays as it is",
 "Once a query has stored its nodes and relationships, no later query changes or removes any of it (number, label, name, properties, direction, times): not further MAKEs, not FINDs or REPORTs, not refused queries, not work on another database, not a restart. "
 "A FIND never writes anything, and the graph that a history of queries leaves is the same whether its queries run in one process or in several, and whether other databases are used in between or not.",
 ["histories"], "every interleaving of operations on two databases with restarts, FINDs, refused queries and deletion and re-creation up to a depth",
 "Tests run single operations on fresh fixture files; state carried over between queries, databases and processes (module globals, caches, file offsets) only shows in histories.",
 [G+"database/database.py", G+"replace_file.py", Q, WQL+"clauses/find/find.py", SG+"select_gdbms.py"],
 [("add_item_to_database", G+"database/database.py"), ("query", Q)], STORED, ["all files of all databases after every step"])
prop("C07", "FIND reports no results exactly when the graph lacks a label or name",
 "A FIND prints 'No results' if and only if its pattern has a node label or a relationship name that no stored node or relationship of that database has; unnamed relationships ask for no name. "
 "This holds for every pattern shape and position of the missing label or name, after any history (also for what the MAKE of the same query adds), and independently of what other databases hold.",
 ["inputs", "histories"], "every stored graph over a small alphabet of labels and names against every FIND pattern over that alphabet and unknown ones",
 "There is a test for a label and one for a name on a literal set; which combinations of shape, position and stored graph short circuit is a product space, and the test of names had pinned nothing about the direction of the test.",
 [WQL+"clauses/find/find.py", WQL+"clauses/find/short_circuits/find_short_circuits.py", WQL+"clauses/find/short_circuits/nodes.py", WQL+"clauses/find/short_circuits/relationships.py", WQL+"clauses/find/transform/find_pre.py"],
 [("find_short_circuit", WQL+"clauses/find/short_circuits/find_short_circuits.py"), ("node_labels / relationship_names of process_parsed_find", WQL+"clauses/find/transform/find_pre.py")], STORED[1:2], ["standard output of the query"])
prop("C08", "A FIND with its criteria is understood exactly as written",
 "The prepared form of a FIND has exactly the nodes and relationships of the pattern, in their places, with each one's own label or name, handle and typed properties, each relationship belonging to the node that it starts at, and the sets of its labels and names. "
 "Criteria given for a handle add their wanted and unwanted properties to the node or relationship with that handle only (a wanted one replaces a property of the same name), and leave everything else, and later FINDs, unchanged.",
 ["inputs", "histories"], "every pattern shape, direction and placement of handles, labels and properties with every assignment of criteria to the handles, and sequences of such FINDs",
 "The tests look at few patterns and no criteria on bare nodes; the right node was built from the wrong place with all tests passing.",
 [WQL+"clauses/find/transform/find_pre.py", WQL+"clauses/find/parse_find/parse_find_statement.py", "models/wql/clauses/find/find_pre.py"],
 [("process_parsed_find", WQL+"clauses/find/transform/find_pre.py"), ("add_criteria_yes_no_props", WQL+"clauses/find/transform/find_pre.py")], (), ["the result of preparing a parsed FIND"])
prop("C09", "A property value is stored with the type and content that was written",
 "Every property of a node or relationship that is accepted is stored with the value written: whole numbers as integers, decimals as floats, true/false as booleans, null as null, quoted or bare text as exactly that text, and lists as lists of such values in order, each under its own name. "
 "This holds for every value, in every position among other properties, and the documented forms are accepted.",
 ["inputs"], "all strings over a small alphabet up to a length in each quoting style, a dictionary of numeric, boolean, null and keyword-like values, and lists of them, alone and in every pair and position",
 "Tests use about ten literals; values that look like another type, contain keywords or sit next to others (nullx, 1e5, lists with the word true) were cut short or retyped with all tests passing.",
 [PH+"parse_properties.py", WQL+"clauses/regexes/patterns/properties.py", "models/wql/parsing/properties_pre.py", PH+"parse_statement_checks.py"],
 [("ALL_PROPERTIES_KEY_VALUE_REGEX", WQL+"clauses/regexes/patterns/properties.py"), ("handle_extracted_property and its handlers", PH+"parse_properties.py")], STORED[:1], ["properties in the database file"])
prop("C10", "Layout and the case of the clause words do not matter",
 "Adding or changing whitespace and line breaks between the parts of a query, putting its statements on one line or several, and writing MAKE, FIND and REPORT in any mix of upper and lower case changes neither whether the query is accepted nor what it stores or prints. "
 "Labels, names, handles and texts keep their case.",
 ["inputs"], "every choice of whitespace (none, space, several, tab, newline) at up to two of the gaps of representative queries, every case pattern of each clause word, every line arrangement of statements",
 "Tests have a few layouts; the gaps are many and combine (whitespace after an arrow flipped the direction of a relationship with all tests passing).",
 [WQL+"clauses/regexes/patterns/patterns_helpers.py", WQL+"clauses/regexes/patterns/clause_helpers.py", WQL+"clauses/regexes/report/report_patterns.py", WQL+"clauses/transform_helpers/relationships.py", PH+"extract_statements.py"],
 [("pattern regexes", WQL+"clauses/regexes/patterns/patterns_helpers.py"), ("get_clause_all_regex", WQL+"clauses/regexes/patterns/clause_helpers.py")], STORED, ["files and output for all layouts of one query"])
prop("C11", "Malformed patterns are refused wherever they stand",
 "A MAKE or FIND with an undirected or doubly directed relationship, a relationship name that is not upper case, a node without label in a MAKE, an illegal character, an unbalanced bracket, a missing colon or comma in its properties, the same handle twice in one pattern, or an empty property value is refused with an error. "
 "This holds for whichever pattern, position and statement it stands in and whatever correct parts stand before or after it.",
 ["inputs"], "every kind of malformation at every position in queries of up to three statements and three patterns of every shape",
 "Tests put one malformation into one statement; checks that look only at the first statement, first pattern or first match pass them.",
 [PH+"parse_statement_checks.py", PH+"extract_statements.py", "models/wql/parsing/parsed_query.py", WQL+"clauses/regexes/patterns/relationships.py", WQL+"clauses/regexes/patterns/utilities.py"],
 [("validate_statement", PH+"parse_statement_checks.py"), ("validate_handles", "models/wql/parsing/parsed_query.py")], (), ["outcome of the query"])
prop("C12", "Which clauses may stand together in a query",
 "A query is accepted with any number of MAKE statements, at most one FIND and at most one REPORT, in any order, and it must have a MAKE or a FIND; a REPORT needs a FIND and may name only handles of that FIND (alone, with a property, or in a function) or *. "
 "Every other composition of MAKE, FIND and REPORT, and an empty query, is refused with an error and stores nothing; a composition that is allowed is not refused.",
 ["inputs"], "every sequence of up to five statements over a small alphabet of MAKE, FIND and REPORT statements, and every REPORT of up to three items over handles that are and are not in the FIND",
 "Tests have single statements; a query with only a MAKE was refused and a REPORT was checked against its handles the wrong way round with all tests passing.",
 [Q, WQL+"clauses/find/parse_find/parse_find_statement.py", WQL+"clauses/report/parse_report/parse_report_statement.py", PH+"extract_statements.py"],
 [("parse_query_string / execute_query", Q), ("check_find_report_handles", WQL+"clauses/report/parse_report/parse_report_statement.py")], (), ["outcome of the query"])
prop("C13", "Every scrambled MAKE, FIND or REPORT is reported",
 "A statement whose clause word is MAKE, FIND or REPORT with its letters in another order, in any case, is refused with an error that names the intended clause; it is never skipped, also when other statements in the query are correct. "
 "Labels, names, handles, property names and texts that contain or look like such words are not affected.",
 ["inputs"], "all 24 + 24 + 720 orders of the letters, in several cases, at every position among correct statements; and the same words in every other place of a query",
 "Tests have a few scrambled words in a query of their own; all orders, in all positions next to correct statements, are not sampled.",
 [WQL+"clauses/regexes/patterns/clause_helpers.py", WQL+"clauses/regexes/report/report_patterns.py", PH+"extract_statements.py", PH+"parse_statement_checks.py"],
 [("check_clause_spelling", PH+"parse_statement_checks.py"), ("get_clause_permutations_regex", WQL+"clauses/regexes/patterns/clause_helpers.py")], (), ["outcome of the query"])
prop("C14", "Databases are created, listed, selected and deleted one at a time",
 "Creating a database makes an empty, usable database with that name or, if the name is taken, refuses and touches nothing; listing gives exactly the existing databases in alphabetical order; selecting a letter gives the files of the database displayed under it, in the same folder. "
 "Deleting a database removes it and nothing else, whatever characters its name has and whatever other databases exist, and deleting one that does not exist is refused and removes nothing.",
 ["histories", "inputs"], "every sequence of create, delete, list, select and MAKE up to a depth over names chosen to collide (prefixes, case, glob characters, dots, path separators, empty)",
 "Tests create one or two databases and never delete; the lifecycle is a state machine, and a database called a* took the files of others with it.",
 [SG+"select_gdbms.py", SG+"select_database_file.py", SG+"select_index_file.py", SG+"select_wiggle_number_file.py"],
 [("get_new_gdbms_file_paths", SG+"select_gdbms.py"), ("delete_gdbms", SG+"select_gdbms.py"), ("get_existing_gdbms", SG+"select_gdbms.py")], [("DBMS folder", "one folder per database with three files", "the folder given to the functions")], ["the tree of files in and around the DBMS folder, the results and the output"])
prop("C15", "The storage functions behave like independent collections",
 "Adding to the database or to one of the three indexes adds exactly the given items and keeps the ones already there (union per index and per node; an existing node is refused and then nothing is added), loading returns exactly what was added since the last wipe, and the number file returns what was last written. "
 "A wipe empties exactly the one collection it is called for, and only when it is confirmed; no operation changes another collection, and nothing is left over when content shrinks.",
 ["histories", "inputs"], "every sequence of add, load and wipe (confirmed or not) over the database, the three indexes and the number up to a depth, with items that collide",
 "Tests call each function once on a fixture; interplay in sequences (shrinking files, wiping one of the indexes that share a file, adding twice) is not covered.",
 [G+"database/database.py", G+"database/indexes/index_helpers.py", G+"database/indexes/node_relationships_index.py", G+"database/indexes/node_labels_index.py", G+"database/indexes/relationship_names_index.py", G+"state/wiggle_number.py"],
 [("add_*, load_*, wipe_* functions", G+"database/")], STORED, ["results of the load functions and the files"])
prop("C16", "A crash during a query loses nothing and blocks nothing",
 "If the process is killed, or the power lost, at any moment of a query, then afterwards everything stored by earlier queries is intact and readable, the interrupted query is stored completely or not at all, the label and name indexes cover all that is stored, and later queries work, with numbers that are not in use. "
 "A query that had returned is stored completely.",
 ["crash_points", "histories"], "every file operation of every query of short histories as the point of the crash, with the operation done, not done or half done, and for a power loss every combination of lost unsynced writes",
 "Tests never interrupt anything; the write path overwrote the files in place, so a crash could lose the whole database.",
 [G+"replace_file.py", G+"database/database.py", G+"database/indexes/index_helpers.py", G+"database/indexes/node_relationships_index.py", G+"state/wiggle_number.py", WQL+"clauses/make/make.py"],
 [("replace_file", G+"replace_file.py"), ("order of the writes in make", WQL+"clauses/make/make.py")], STORED, ["the files after the crash, and what later queries do"])
prop("C17", "The shell runs every line once and survives every error",
 "The interactive shell runs each line entered as one query against the chosen database, once and in the order entered, shows the error of a line that is refused and goes on, shows the help only for help, and ends at q. "
 "What a session leaves in the database, and prints for its FINDs, is the same as running its correct lines directly.",
 ["histories", "inputs"], "every session of up to four lines over an alphabet of correct, refused, empty, help and q lines, for new and existing databases",
 "There is no test of the shell at all.",
 ["wiggle_shell/wiggleshell.py", SG+"select_gdbms.py", Q], [("start_wiggle_shell", "wiggle_shell/wiggleshell.py")], STORED, ["prompts, output and files of a session"])
prop("C18", "Shells that use one database at the same time do not harm each other",
 "When several processes run queries on the same database at the same time, every interleaving of what they do ends as if the queries had run one after another in some order: no node or relationship is lost, changed or numbered twice, the indexes are complete, no query fails, and no FIND fails or reports what no such order explains. "
 "No interleaving blocks forever.",
 ["schedules"], "all interleavings of the file operations of two or three processes with one or two queries each (up to a bound on preemptions where stated)",
 "Tests run in one process; the read-modify-write of three files by two processes has thousands of interleavings.",
 [G+"lock_folder.py", Q, G+"replace_file.py", WQL+"clauses/make/make.py", WQL+"clauses/find/short_circuits/find_short_circuits.py"],
 [("lock_folder", G+"lock_folder.py"), ("execute_query", Q)], STORED, ["files and outcomes at the end of every schedule"])
prop("C19", "Creation times say when",
 "Every node and relationship has a creation time that lies between the start and the end of the query that made it, has no update time, and neither ever changes after. "
 "This holds for every query of a long running process as for the first.",
 ["histories", "schedules"], "every history of queries, clock steps (forward and backward) and restarts up to a depth, under a controlled clock",
 "No test looks at the creation time; the time of the import of the module was stored for everything with all tests passing.",
 ["models/wql/data/wiggle_metadata.py", WQL+"clauses/make/make.py"], [("WiggleGraphMetalData.created_at", "models/wql/data/wiggle_metadata.py")], STORED[:1], ["the times in the database file"])
prop("C20", "A failing disk operation loses nothing and blocks nothing",
 "If one or more file operations of a query fail (disk full, I/O error, permission, or a write cut short), the query is stored completely or not at all, and completely if it reports success; what earlier queries stored stays intact and readable, and a FIND that reports is right. "
 "Once the fault is gone later queries work, with indexes that cover what is stored and numbers that are not in use.",
 ["fault_sequences", "histories"], "every file operation of every query of short histories failing with each of several errors, alone, from then on, and in pairs",
 "Tests never inject a fault; the error paths of the write path are not executed by any test.",
 [G+"replace_file.py", G+"database/database.py", G+"database/indexes/index_helpers.py", WQL+"clauses/make/make.py", "wiggle_shell/wiggleshell.py"],
 [("replace_file", G+"replace_file.py"), ("order of the writes in make", WQL+"clauses/make/make.py")], STORED, ["the files after the fault, and what later queries do"])
prop("C21", "Node and relationship objects keep the graph consistent",
 "A relationship from a node to itself is refused, a node is refused when any of its relationships does not start or end at it, and all others are accepted. "
 "The number, relationship names and export of a node say exactly what it holds, and its index export lists the numbers of the nodes that its relationships point to, in every combination of labels, properties and relationships, and making or exporting one object never changes another.",
 ["inputs", "histories"], "every node with up to three relationships over a small space of numbers, names and properties, and sequences of such objects",
 "Tests build four fixtures; the validator over all positions of the offending relationship and the exports of all combinations are not covered.",
 ["models/wql/data/node.py", "models/wql/data/relationship.py", "models/wql/data/wiggle_metadata.py"],
 [("validate_relationships", "models/wql/data/node.py"), ("validate_from_to_wn", "models/wql/data/relationship.py")], (), ["construction and exports of the objects"])
prop("C22", "Creating and deleting databases survives crashes, faults and shells",
 "If the process is killed, the power lost, or a file operation fails while a database is created or deleted, or other shells create, delete, list or use databases at the same time, then every other database stays intact and usable, and listing and selecting work. "
 "What can be selected afterwards can be used (a new database is empty, one whose deletion was interrupted unchanged), a creation that failed leaves nothing behind once the disk works, and the name can be used again, if need be after a deletion. "
 "Of several creations of the same database at the same time exactly one succeeds, and a database whose creation has returned is there, with what is stored in it from then on.",
 ["crash_points", "fault_sequences", "schedules"], "every file operation of every creation and deletion among other databases as crash point (kill and power loss) and as failing operation, and all interleavings with other processes up to a number of preemptions",
 "Tests create and delete one database undisturbed.",
 ["wiggle_shell/core/select_gdbms/select_gdbms.py", "wiggle_shell/core/select_gdbms/select_database_file.py", "wiggle_shell/core/select_gdbms/select_index_file.py", "wiggle_shell/core/select_gdbms/select_wiggle_number_file.py"],
 [("get_new_gdbms_file_paths", "wiggle_shell/core/select_gdbms/select_gdbms.py"), ("delete_gdbms", "wiggle_shell/core/select_gdbms/select_gdbms.py")], STORED, ["the folders and files afterwards, and what later operations do"])
prop("C23", "A query means the same whatever was asked before",
 "How a query is parsed and prepared, whether it is accepted, with which error, what it stores and what it prints depend on its text and on what its database holds alone. "
 "Whatever queries were run before in the same process, accepted or refused, once or often, on this database or on others (also one with the same name elsewhere, or one that was deleted and created again), the outcome is that of a new process.",
 ["histories"], "all sequences of queries up to a length, over an alphabet of similar, wrong and unusual queries and three databases, in one process",
 "Tests run each query once; state that survives a query (a cache, a default, a list of handles) shows only after particular other queries.",
 [Q, WQL+"clauses/parsing_helpers/parse_properties.py", WQL+"clauses/parsing_helpers/parse_statement_checks.py", "models/wql/parsing/parsed_query.py", WQL+"clauses/find/parse_find/parse_find_statement.py", G+"database/indexes/index_helpers.py"],
 [("query", Q), ("parse_query_string", Q)], STORED, ["the parsed query, error, output and files after each step"])
prop("C24", "Every query is answered",
 "No text keeps the shell busy for ever: every query of up to two thousand characters is accepted or refused within a few seconds of processor time, however its words, brackets, quotes, spaces and line breaks are repeated and wherever it is wrong or not closed. "
 "Large correct queries and databases, with hundreds of patterns, values, handles or nodes, are answered too.",
 ["inputs"], "all texts of a beginning, one or two repeated parts, and an end, over the parts of the language; every part and stretch of correct queries repeated; large correct queries",
 "Tests use short texts; a regular expression that backtracks, or a loop that does not advance, shows only on repeated parts with a wrong end.",
 [WQL+"clauses/regexes/patterns/patterns_helpers.py", WQL+"clauses/regexes/patterns/properties.py", WQL+"clauses/regexes/patterns/relationships.py", WQL+"clauses/regexes/patterns/clause_helpers.py", WQL+"clauses/parsing_helpers/parse_statement_checks.py", WQL+"clauses/parsing_helpers/parse_properties.py"],
 [("get_nodes_rels_pattern_regex", WQL+"clauses/regexes/patterns/patterns_helpers.py"), ("validate_statement", WQL+"clauses/parsing_helpers/parse_statement_checks.py")], STORED[:0], ["the answer to every text, within a limit of processor time"])
prop("C25", "A refused query is told what is wrong with it",
 "Every query that is refused is refused with one of WiggleGraph's own errors and a message, never with an internal error of Python. "
 "A query with one mistake gets the error of that mistake (brackets, direction or name of a relationship, illegal character, colon or comma of properties, value, handle given twice, too many or missing clauses, unknown handle in a REPORT), and where the error quotes a part of the query (a relationship, name, character, property, value, handle) it is the part at fault, whichever statement, pattern and position it stands in and whatever correct parts surround it.",
 ["inputs"], "one mistake of every kind at every position of every pattern shape, in every slot of up to three statements and three patterns, in MAKE and FIND, and all short token sequences and odd characters in every place of a query",
 "Tests give one wrong statement each and mostly look at the class of the error; which statement and part an error is about matters only in longer queries, and errors of Python come from inputs that nobody thought of.",
 [PH+"parse_statement_checks.py", PH+"parse_properties.py", PH+"extract_statements.py", WQL+"clauses/report/parse_report/parse_report_statement.py", "models/wql/parsing/parsed_query.py", "exceptions/wiggle_base_exception.py"],
 [("validate_statement", PH+"parse_statement_checks.py"), ("handle_extracted_property and its handlers", PH+"parse_properties.py"), ("check_find_report_handles", WQL+"clauses/report/parse_report/parse_report_statement.py")], (), ["the error of the query"])
prop("C26", "A damaged database is not made worse by using it",
 "Whatever the three files of a database contain (missing, empty, cut short, garbage, other valid content, a number that is too low or too high), a query neither removes nor changes a stored node or relationship (nor, unless the number is too low or the index is some other JSON object, an index entry) that can still be read, nor lowers the number, nor puts something in the place of a file that cannot be read, nor touches another database; a FIND writes nothing. "
 "A MAKE is refused and stores nothing when one of the files is missing, not a JSON object or not a number, and once the damaged file is put back the database works with everything in it.",
 ["fault_sequences", "inputs"], "every file cut at every byte, with every byte removed or replaced by others, missing, or replaced by a list of other contents, one file or several, for several histories and queries",
 "Tests read and write intact files, and one empty one; a fallback that takes a damaged file for an empty one overwrites the whole database and looks like robustness in a test.",
 [G+"database/database.py", G+"database/indexes/index_helpers.py", G+"database/indexes/node_relationships_index.py", G+"state/wiggle_number.py", WQL+"clauses/make/make.py"],
 [("add_item_to_database", G+"database/database.py"), ("get_current_wiggle_number", G+"state/wiggle_number.py"), ("add_items_set_to_index_by_name", G+"database/indexes/index_helpers.py")], STORED, ["the files after a query on damaged files"])
prop("C27", "A database is its files, wherever they lie and whoever wrote them",
 "What a query finds, makes and numbers follows from what the three files of its database say when it runs, and from nothing else: also when another program wrote them in another layout of JSON or with line breaks at the end, "
 "and when the files were restored from a backup (with old times or new ones), copied to another database, moved, or removed and put back between two queries of the same process. A folder of databases works wherever it lies and whatever its path is "
 "(spaces, dots, brackets, stars, quotes, letters of any script), given absolute or relative, through a link, or while the current folder is another one.",
 ["schedules", "inputs"], "every sequence of queries and changes of the files from outside; every layout and small graph; every place",
 "Tests use one fixed folder and files that the code itself has just written; anything remembered between queries, or any path that is treated as text, goes unnoticed.",
 [G+"database/database.py", G+"database/indexes/index_helpers.py", G+"state/wiggle_number.py", SG+"select_gdbms.py", SG+"select_database_file.py", "models/wigish/dbms.py"],
 [("load_database, load_index_set_by_name", G+"database/database.py"), ("get_existing_gdbms", SG+"select_gdbms.py")], STORED, ["what a query prints and stores"])
prop("C28", "An interrupted query leaves nothing half done",
 "When a query is interrupted in the middle (Ctrl-C, lack of memory, the program is told to exit) at any call that it makes, the query is stored completely or not at all, what was stored stays, the indexes cover what is stored, numbers are not given out again, "
 "and a query that returns as if nothing had happened is complete and its FIND right. The same process can go on at once: the same query again, and others, on this database work as in a new process, nothing of the interrupted query turns up in them, and no lock stays behind.",
 ["fault_sequences"], "an interruption at every call of every query, once and again when it is repeated, in a new and in a used process",
 "Tests do not interrupt; handlers for Exception do not see an interrupt, so that clean-up written for errors is skipped.",
 [Q, WQL+"clauses/make/make.py", WQL+"clauses/find/find.py", G+"lock_folder.py", G+"replace_file.py"],
 [("query, execute_query", Q), ("make", WQL+"clauses/make/make.py"), ("lock_folder", G+"lock_folder.py")], STORED, ["the files after an interruption, and later queries of the same process"])
prop("C29", "A parsed query can be executed again and elsewhere",
 "Reading a query (parse_query_string) touches no file. Its result can be executed (execute_query) any number of times, at any time, on any database, and each time stores and prints exactly what the query text would on that database at that time: "
 "new nodes and relationships with the next numbers of that database. Executing it does not change what it says.",
 ["schedules"], "every sequence of executions of queries that were parsed once, on two databases",
 "Tests execute what they have just parsed once; state that is kept in the parsed query, or used up by executing it, is not seen.",
 [Q, WQL+"clauses/make/make.py", WQL+"clauses/make/transform/make_pre.py", WQL+"clauses/find/find.py", WQL+"clauses/find/transform/find_pre.py", "models/wql/parsing/parsed_query.py"],
 [("parse_query_string, execute_query", Q), ("process_parsed_make_list", WQL+"clauses/make/transform/make_pre.py"), ("process_parsed_find", WQL+"clauses/find/transform/find_pre.py")], STORED, ["what an execution stores and prints"])
prop("C30", "Threads of one program can query at the same time",
 "A program may run queries in several threads at the same time, on one database or on several. Whatever the threads are doing when Python switches between them, "
 "every query is accepted or refused as it would be alone, stores all of its own nodes, relationships, properties and index entries and nothing of another thread's query, "
 "gets numbers that no other query gets, prints what it would print alone, and a FIND sees the database before or after the MAKE of another thread, not half of it. No thread waits for ever.",
 ["schedules"], "all schedules of two and three threads up to a number of preemptions, at every call and return of the code of the repository or at every call of the operating system",
 "Tests run in one thread; state of the module or of the process (a shared list, the current folder, the standard output, a lock that a process holds for all its threads) is only wrong when threads are switched at particular points.",
 [Q, WQL+"clauses/parsing_helpers/parse_properties.py", WQL+"clauses/make/make.py", WQL+"clauses/make/transform/make_pre.py", WQL+"clauses/find/find.py", G+"lock_folder.py", G+"database/database.py"],
 [("query", Q), ("lock_folder", G+"lock_folder.py"), ("parse_properties", WQL+"clauses/parsing_helpers/parse_properties.py")], STORED, ["what each thread's query does, stores and prints"])
prop("C31", "A query means the same in every environment",
 "How a query is parsed and prepared, whether it is accepted, with which error, what it stores and what a FIND finds do not depend on the environment of the program: not on the options that Python is started with "
 "(-O, -OO, -bb, -u, -X dev), its hash seed, the locale and encodings, the time zone, the mask, the working folder (also one with an odd name, or one that was removed), other environment variables, "
 "or small limits of the process. A database that was written in one environment is read and continued in every other.",
 ["inputs", "configurations"], "every query in every environment of the enumeration, and histories in which two environments take turns on one database",
 "The tests run in one environment: what Python does with assertions, sets, encodings or the width of the terminal elsewhere cannot show in them.",
 [Q, WQL+"clauses/parsing_helpers/parse_statement_checks.py", WQL+"clauses/parsing_helpers/parse_properties.py", WQL+"clauses/make/make.py", WQL+"clauses/find/find.py", G+"database/database.py", G+"database/indexes/index_helpers.py"],
 [("query", Q), ("parse_query_string", Q)], STORED, ["results of queries in processes with different environments"])
prop("C32", "A query leaves the program that runs it as it found it",
 "Whatever is asked of the database functions (a query that is accepted, refused or fails on damaged files or a failing disk, creating, deleting, listing, selecting a database), "
 "and however often, the program that asked is afterwards as before: the same working folder, mask, environment, signal handlers, timers, standard streams, hooks, limits, locale and log handlers, "
 "no more open files, threads, child processes or files outside of the database than before, and no memory that grows with every query. So a program can go on querying for ever.",
 ["histories", "faults"], "every query and operation on every kind of content, alone, in pairs, many times over, with every single file operation failing, and interrupted at every call",
 "Tests look at results; what a query leaves behind in its process only shows after many of them, or in what the program does next.",
 [Q, WQL+"clauses/parsing_helpers/parse_properties.py", WQL+"clauses/make/make.py", WQL+"clauses/find/short_circuits/find_short_circuits.py", G+"database/database.py", "wiggle_shell/core/select_gdbms/select_gdbms.py", "wiggle_shell/core/select_gdbms/select_database_file.py"],
 [("query", Q)], STORED, ["what the process has open and is set to, before and after each operation"])
prop("C33", "The parsed form of a query is what is written",
 "Parsing a query gives a MAKE for every MAKE that is written (in that order), the FIND and the REPORT, each with its clause and its text as it stands in the query, each with its patterns in their order, "
 "and each pattern with its nodes and relationships in their places: text, handle, label or name, and properties as written, the arrows as they point, the right number of nodes and relationships, and exactly its handles. "
 "This does not depend on the layout, on what else stands in the query or on how alike two parts of it are.",
 ["inputs"], "every query that is put together from the parts of the enumeration, in every layout of it",
 "The tests parse a few dozen queries; the parsed form is what all that follows works with, and a REPORT is visible nowhere else.",
 [Q, WQL+"clauses/make/parse_make/parse_make_statement.py", WQL+"clauses/find/parse_find/parse_find_statement.py", WQL+"clauses/report/parse_report/parse_report_statement.py", WQL+"clauses/parsing_helpers/extract_statements.py", "models/wql/parsing/parsed_query.py"],
 [("parse_query_string", Q)], [("parsed form", "ParsedQuery with its ParsedMake, ParsedFind, ParsedReport and ParsedPattern", "models/wql/parsing/parsed_query.py")], ["the parsed form of queries that are put together from known parts"])
prop("C34", "A query keeps the access rights and links of a database's files",
 "A query changes the content of a database's files and nothing else about them: their access rights and those of the folder stay, and a file or folder that is a symbolic link stays one, while the file it leads to gets the content. "
 "A file that may not be written is not replaced and one that may not be read is not needed by a query that does not use it: with the rights for it a query is accepted (a FIND needs to read the indexes only), without them it is refused, nothing stored is lost or changed, and with the rights given back the database works. "
 "A new database has no rights that the mask of the process forbids. Choosing a database changes no rights or links, works whatever the rights of its files, and goes on after one whose files are missing or cannot be reached.",
 ["inputs", "histories"], "all combinations of rights of the three files and the folder and of links within the bounds, every query of the set, and sequences of queries and changes of rights",
 "The tests run on files with one set of rights and as the superuser, whom rights do not bind.",
 [G+"replace_file.py", G+"database/database.py", G+"database/indexes/index_helpers.py", G+"database/indexes/node_relationships_index.py", G+"state/wiggle_number.py", SG+"select_gdbms.py", SG+"select_database_file.py", SG+"select_index_file.py", SG+"select_wiggle_number_file.py"],
 [("replace_file", G+"replace_file.py"), ("get_existing_gdbms", SG+"select_gdbms.py")], STORED, ["rights, links and content of the files after queries run by an ordinary user"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
