From fe3d28e4a977fe8992d850e7d9aee2ff0da3d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 01/44] fix: store the right node of a three node pattern, not
 the left one again

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From 0fc744adc9ee16ede6696b5e279601c46eafba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 02/44] fix: rewind the indexes file also when there are no
 relationships to add

---
 .../graph/database/indexes/node_relationships_index.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..1f93e9d 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -39,7 +39,7 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-            file_handle.seek(0)
+        file_handle.seek(0)
 
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
-- 
2.43.0


From ed51e17f4684b61d9aedb99a6ae111da48f0edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 03/44] fix: accept a query which has a MAKE and no FIND,
 refuse a REPORT without a FIND

---
 wiggle_shell/core/query/query.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..c321179 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -35,11 +35,16 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = (
+        find_parsed.parsed_pattern.pattern_handles if find_parsed else None
+    )
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
 
+    if report_parsed and not find_parsed:
+        raise NotAValidQueryError("You must provide a FIND with a REPORT")
+
     query_parsed = ParsedQuery(
         make_parsed=make_parsed,
         find_parsed=find_parsed,
@@ -65,8 +70,8 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
-        raise Exception("You must provide a FIND with a RETURN! FUBAR")
+    elif not query_make:
+        raise NotAValidQueryError("You must provide a MAKE or a FIND")
 
     return True
 
-- 
2.43.0


From 0b7dd571db180f87b8dec5d4fe9d6db4f416a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 04/44] fix: build the right node of a FIND from the right node
 of its pattern

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..20afbfe 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From 04dcd252bc033a422b497dc09c0a6fa78340e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 05/44] fix: add CRITERIA properties to a FIND node or
 relationship which has none

---
 wiggle_query_language/clauses/find/transform/find_pre.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 20afbfe..2bdd4ce 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -31,7 +31,10 @@ def add_criteria_yes_no_props(
 
     if criteria := criteria.criteria_handle_props.get(handle, None):
         if props_dict_yes := criteria.props_dict_yes_match:
-            find_pre_model.props_dict_yes.update(props_dict_yes)
+            find_pre_model.props_dict_yes = {
+                **(find_pre_model.props_dict_yes or {}),
+                **props_dict_yes,
+            }
         # no
         if props_dict_no := criteria.props_dict_no_match:
             find_pre_model.props_dict_no.update(props_dict_no)
-- 
2.43.0


From 978c592cadf89ff5e449c3d6d1a8d0dce24f1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 06/44] fix: answer no results when any node label of the FIND
 is unknown

---
 wiggle_query_language/clauses/find/short_circuits/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/nodes.py b/wiggle_query_language/clauses/find/short_circuits/nodes.py
index 237a4cb..8628adb 100644
--- a/wiggle_query_language/clauses/find/short_circuits/nodes.py
+++ b/wiggle_query_language/clauses/find/short_circuits/nodes.py
@@ -1,4 +1,4 @@
 def node_label_is_in_index(
     node_label_set: set[str], node_label_index: set[str]
 ) -> bool:
-    return bool(node_label_set.intersection(node_label_index))
+    return node_label_set.issubset(node_label_index)
-- 
2.43.0


From e242b5ca3b321ea1a44a6eed7c68db1133f83e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 07/44] fix: answer no results when a relationship name of the
 FIND is unknown, not when it is known

---
 .../clauses/find/short_circuits/find_short_circuits.py          | 2 +-
 .../clauses/find/short_circuits/relationships.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..fcab9d5 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,7 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    if not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
diff --git a/wiggle_query_language/clauses/find/short_circuits/relationships.py b/wiggle_query_language/clauses/find/short_circuits/relationships.py
index 21e4ef2..1d8c372 100644
--- a/wiggle_query_language/clauses/find/short_circuits/relationships.py
+++ b/wiggle_query_language/clauses/find/short_circuits/relationships.py
@@ -1,4 +1,4 @@
 def relationship_name_is_in_index(
     relationship_name_set: set[str], relationship_name_index: set[str]
 ) -> bool:
-    return bool(relationship_name_set.intersection(relationship_name_index))
+    return relationship_name_set.issubset(relationship_name_index)
-- 
2.43.0


From 2964e5fd7da0feda1606e915f8792a53cb0bea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 08/44] fix: keep the direction of an arrow which is followed
 by whitespace

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..c29a44e 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return True if parsed_relationship_pattern.strip()[-1] == ">" else False
-- 
2.43.0


From 4f47f3969c0ff5c1f16680c0983065091b146d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 09/44] fix: check the relationships of every statement, also
 after one without relationships

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From 36a96f202f7973b6c3b78cb135f02da8b61962b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 10/44] fix: end a MAKE or FIND statement at its semicolon, not
 at the end of the line, and accept its clause in mixed case

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..9c09b17 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"(?P<clause_stmt_all>((?i:{clause}))\s*\([^;]+\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
-- 
2.43.0


From 672b385199f234dcd2774130480ca0fab98c3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 11/44] fix: look for REPORT only where a statement starts, not
 in labels such as Report or Porter

---
 .../clauses/parsing_helpers/extract_statements.py             | 2 +-
 .../clauses/regexes/report/report_patterns.py                 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..2c56a60 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,7 +32,7 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
+    if make_matches := [x.group().strip() for x in clause_all_regex.finditer(query_string)]:
         return make_matches
 
     check_clause_spelling(query_string, clause)
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..1b68a08 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -8,12 +8,12 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
+    pattern=rf"(?:^|(?<=;))\s*(?P<report_stmt_all>((?i:{CLAUSE}))[^;]+;)",
     flags=IGNORECASE,
 )
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
+    pattern=rf"(?:^|(?<=;))\s*(?P<report_stmt_all>({get_clause_permutations(CLAUSE)})[^;]+;)",
     flags=IGNORECASE,
 )
-- 
2.43.0


From a656c5899fa2863cf0dee4320fe76e870312c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 12/44] fix: report a misspelt clause also when the query has a
 correct one

---
 .../clauses/parsing_helpers/extract_statements.py        | 9 ++++++---
 .../clauses/regexes/patterns/clause_helpers.py           | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 2c56a60..b2fc910 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,9 +32,12 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group().strip() for x in clause_all_regex.finditer(query_string)]:
-        return make_matches
+    # A misspelt statement is an error even when another one is spelt correctly
+    check_clause_spelling(clause_all_regex.sub(" ", query_string), clause)
 
-    check_clause_spelling(query_string, clause)
+    if make_matches := [
+        x.group().strip() for x in clause_all_regex.finditer(query_string)
+    ]:
+        return make_matches
 
     return None
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9c09b17..846745e 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>((?i:{clause}))\s*\([^;]+\)\s*;)"
+    return rf"\b(?P<clause_stmt_all>((?i:{clause}))\s*\([^;]+\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
@@ -29,7 +29,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s?\("
+        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s*\("
     )
 
     return clause_permutations_regex
-- 
2.43.0


From 8a0ed856fc93fc170093bf1b2faff10c119f0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 13/44] fix: refuse a MAKE or FIND of which a part is not a
 valid pattern, instead of skipping that part

---
 .../parsing_helpers/parse_statement_checks.py | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 3d81f39..fe90f94 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import split
+from re import fullmatch, split
 
 from exceptions.wql.parsing import (
     ClauseSyntaxError,
@@ -15,6 +15,9 @@ from wiggle_query_language.clauses.regexes.find.find_patterns import (
 from wiggle_query_language.clauses.regexes.make.make_patterns import (
     MAKE_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
 )
+from wiggle_query_language.clauses.regexes.patterns.patterns import (
+    NODES_RELS_PATTERN_REGEX,
+)
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
@@ -185,6 +188,33 @@ def check_statement_syntax(stmt_matches: list[str]) -> bool:
     return True
 
 
+def check_nodes_rels_patterns(stmt_matches: list[str]) -> bool:
+    """
+    Checks that the MAKE/FIND statement is made of complete patterns and nothing else.
+    :param stmt_matches: The extracted statements.
+    :return: True or raises and exception.
+    """
+    for stmt in stmt_matches:
+        patterns = [
+            x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(stmt) if x.group()
+        ]
+        commas = "," * (len(patterns) - 1)
+        if not fullmatch(rf"\w+{commas};", NODES_RELS_PATTERN_REGEX.sub("", stmt)):
+            raise ClauseSyntaxError(f"Not a valid pattern: ---> {stmt} <---")
+
+        for pattern in patterns:
+            if (
+                not pattern["left_node"]
+                or (pattern["left_middle_rel"] and not pattern["middle_node"])
+                or (pattern["middle_right_rel"] and not pattern["right_node"])
+            ):
+                raise ClauseSyntaxError(
+                    f"A Relationship is missing a node: ---> {stmt} <---"
+                )
+
+    return True
+
+
 def validate_statement(stmt_matches: list[str]) -> bool:
     """
     Handles the validation for the MAKE/FIND statement.
@@ -195,6 +225,7 @@ def validate_statement(stmt_matches: list[str]) -> bool:
     check_illegal_characters(stmt_matches)
     check_node_rel_properties(stmt_matches)
     check_relationships(stmt_matches)
+    check_nodes_rels_patterns(stmt_matches)
 
     return True
 
-- 
2.43.0


From eb99b01e056f0501d2de1caadae8330cac676718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 14/44] fix: read a property value up to its end, not only up
 to what looks like a null, bool or number

---
 wiggle_query_language/clauses/regexes/patterns/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..1ff5695 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -7,7 +7,7 @@ ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
         r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
         r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
-        r"(?P<string_type>[\w+\'\"@\.\s]+))"
+        r"(?P<string_type>\"[^\"]*\"|'[^']*'|[\w+@\.\s]+))(?=\s*[,}])"
     ),
     flags=IGNORECASE,
 )
-- 
2.43.0


From f3817d8342ace8a398b7f20be547545602895b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 15/44] fix: take only the enclosing quotes off a string
 property, also when whitespace follows them

---
 .../clauses/parsing_helpers/parse_properties.py               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..a961c95 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -60,7 +60,9 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = extracted_property.property_value.strip()
+    if striped_value[0] in "\"'" and striped_value[0] == striped_value[-1]:
+        striped_value = striped_value[1:-1]
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
-- 
2.43.0


From 616f41fc382ff64101e123cc774a8d1ef304e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 16/44] fix: refuse properties of which a part cannot be read,
 instead of skipping that part

---
 .../clauses/parsing_helpers/parse_properties.py           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index a961c95..9003193 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from re import fullmatch
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -47,6 +48,13 @@ def parse_properties(properties_string: str) -> dict:
                 make_primitive_property.property_name
             ] = value_parsed
 
+    # Everything but the braces and commas must have been read as a property
+    leftover = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
+    if not fullmatch(r"\s*{[\s,]*}\s*", leftover):
+        raise WiggleGraphIllegalPropertyValue(
+            f"Properties could not be read: {properties_string}"
+        )
+
     return primitive_property_dictionary
 
 
-- 
2.43.0


From 11b2476603fa9a62dd09ac91f085883b812e0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 17/44] fix: keep true, false and null inside the strings of a
 list property

---
 .../clauses/parsing_helpers/parse_properties.py     | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9003193..962493d 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import fullmatch
+from re import fullmatch, sub
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -176,14 +176,15 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
+    # Leave the strings in the list as they are
+    value = sub(
+        r"""("[^"]*"|'[^']*')|\b(true|false|null)\b""",
+        lambda match: match[1] or {"null": "None"}.get(match[2], match[2].title()),
+        value_in,
     )
     try:
         found_list = literal_eval(value)
-    except SyntaxError:
+    except (SyntaxError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
-- 
2.43.0


From 85bd645dc72fb279c0a685754609b2edc9c7dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 18/44] fix: refuse list properties with unsupported types or a
 missing comma between strings

---
 .../clauses/parsing_helpers/parse_properties.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 962493d..457cb44 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import fullmatch, sub
+from re import fullmatch, search, sub
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -186,6 +186,11 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
         found_list = literal_eval(value)
     except (SyntaxError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
+    if not all(isinstance(x, (int, float, str, type(None))) for x in found_list):
+        raise WiggleGraphIllegalPropertyValue(f"{value_in} has an unsupported type.")
+    # Python would join adjacent strings, or take a letter before one as a prefix
+    if search(r"""[^\[,\s]\s*''""", sub(r"""("[^"]*"|'[^']*')""", "''", value)):
+        raise WiggleGraphIllegalPropertyValue(f"{value_in} is missing a comma.")
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
 
-- 
2.43.0


From 759774592bd7ad1a7ce233f66cf2c6e51059c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 19/44] fix: accept an empty list property

---
 wiggle_query_language/clauses/regexes/patterns/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 1ff5695..5af3618 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -6,7 +6,7 @@ from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
         r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
-        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
+        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]*\])|"
         r"(?P<string_type>\"[^\"]*\"|'[^']*'|[\w+@\.\s]+))(?=\s*[,}])"
     ),
     flags=IGNORECASE,
@@ -22,5 +22,5 @@ CHECK_PROPERTIES_SYNTAX_REGEX = compile(
 
 # [1, '2', "2_4", "3 4", 3.14]
 PROPERTIES_LIST_VALUE_REGEX = compile(
-    pattern=rf"(?P<list_value>\[[\w,\s'\"\.{EXTRA_ALLOWED_CHARS}]+])", flags=IGNORECASE
+    pattern=rf"(?P<list_value>\[[\w,\s'\"\.{EXTRA_ALLOWED_CHARS}]*])", flags=IGNORECASE
 )
-- 
2.43.0


From 5f3402f22f89b7fb80f7b17fe2da54fe0728425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 20/44] fix: give nodes and relationships the time they are
 created at, not the time the program started

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From cde68e52ea5c00daf203961886ed154c15080751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 21/44] fix: refuse a query with an illegal property in its
 FIND before its MAKE is stored

---
 wiggle_shell/core/query/query.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index c321179..4df0d08 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -10,6 +10,7 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -56,6 +57,10 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    if parsed_query.find_parsed:
+        # A FIND that is refused must not leave the MAKE of its query behind
+        process_parsed_find(parsed_query.find_parsed, parsed_query.criteria_parsed)
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
-- 
2.43.0


From c91533ed5eafe4a96bc744e9f2e892ab1dc313d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 22/44] fix: show the help only when asked for it, not for
 every query with help in it

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From 4c64b928d49ba0850b710ef7e37a5e7aa7bf435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 23/44] fix: require that the handles of a REPORT are in the
 FIND, not that every handle of the FIND is in the REPORT

---
 .../report/parse_report/parse_report_statement.py     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
index d171f6d..4708709 100644
--- a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
+++ b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
@@ -1,3 +1,4 @@
+from re import findall
 from typing import Optional
 
 from exceptions.wql.clauses import MultipleClauseStatementsError
@@ -9,11 +10,13 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
 
 
 def check_find_report_handles(find_handles: set[str], extracted_report: str) -> True:
-    if find_handles:
-        for find_handle in find_handles:
-            if find_handle not in extracted_report:
+    if find_handles is not None:
+        # Skip the REPORT itself, the properties of a handle and the functions
+        report_body = extracted_report.split(maxsplit=1)[-1]
+        for report_handle in findall(r"(?<![\w.])\w+\b(?!\s*\()", report_body):
+            if report_handle not in find_handles:
                 raise FindReportHandleMissmatch(
-                    f"FIND handle {find_handle} was not found not in the ---> {extracted_report} <---"
+                    f"REPORT handle {report_handle} was not found in the FIND handles of ---> {extracted_report} <---"
                 )
 
     return True
-- 
2.43.0


From 1091f0e981b432197cd95fa9a811008b365ec55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 24/44] fix: display the databases of the folder which the
 database is selected from

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..c824eab 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -117,7 +117,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From 72029b95ff2015acfdf1399cd361b9043d71e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 25/44] fix: list no databases when the DBMS folder does not
 exist yet

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c824eab..166cf12 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -32,6 +32,8 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    if not path_to_dbms_dir.is_dir():
+        return []
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
-- 
2.43.0


From e4c08d89207282db1f0bab69f207d195090e373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 26/44] fix: delete the files of the named database only, also
 when its name is a glob pattern or leaves the folder

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 166cf12..84e163a 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,4 @@
 import os
-from glob import glob
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -171,13 +170,12 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
 
     db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
 
-    if not db_path.is_dir():
-        raise Exception()
+    # The names also keep a delete inside of the DBMS folder
+    if gdbms_name not in list_existing_dbms(path_to_dbms_dir=path_to_dbms_dir):
+        raise Exception(f"{gdbms_name} does not exist")
 
-    files = glob(f"{db_path}/*")
-    if files:
-        for file in files:
-            os.remove(file)
+    for file in db_path.iterdir():
+        os.remove(file)
 
     db_path.rmdir()
 
-- 
2.43.0


From 703c44e026aa1e217d341a60923e0521a6207829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 27/44] fix: refuse a database name which is taken or leaves
 the DBMS folder before anything is created

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 84e163a..7f6d457 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -95,6 +95,11 @@ def get_new_gdbms_file_paths(
     """
 
     try:
+        # The name is one folder in the DBMS folder, which holds nothing else
+        if new_gdbms_name in {"", ".", ".."} or "/" in new_gdbms_name:
+            raise ValueError(f"{new_gdbms_name} is not a valid name")
+        if path_to_dbms_dir.joinpath(new_gdbms_name).exists():
+            raise ValueError(f"{new_gdbms_name} already exists")
         # todo cancel operation
         db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
         indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
-- 
2.43.0


From 73bc8479c40b6b535c4582c4955b923b708cba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 28/44] fix: replace the files of a database as a whole, so
 that a crash while writing does not lose the stored data

---
 .../graph/database/database.py                | 16 ++++-------
 .../graph/database/indexes/index_helpers.py   | 15 ++++------
 .../indexes/node_relationships_index.py       | 17 ++++-------
 wiggle_query_language/graph/replace_file.py   | 28 +++++++++++++++++++
 .../graph/state/wiggle_number.py              |  4 +--
 5 files changed, 48 insertions(+), 32 deletions(-)
 create mode 100644 wiggle_query_language/graph/replace_file.py

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..1e2de2b 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
@@ -6,6 +6,7 @@ from typing import Any
 from exceptions.wql.database import NodeExistsError
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import DATABASE_TEST_FILE_PATH
+from wiggle_query_language.graph.replace_file import replace_file
 
 DATABASE_SHAPE = dict[str, dict[str, Any]]
 
@@ -38,7 +39,7 @@ def add_item_to_database(
     :return: A bool.
     """
 
-    with open(database_file_path, "r+") as file_handle:
+    with open(database_file_path, "r") as file_handle:
         database = load(file_handle)
         graph_logger.info("writing to db")
         for wiggle_number_to_add, node in items_to_add.items():
@@ -48,9 +49,7 @@ def add_item_to_database(
                 )
             else:
                 database[wiggle_number_to_add] = node
-
-        file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+    replace_file(database_file_path, dumps(database, indent=4))
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
@@ -68,11 +67,8 @@ def wipe_database(database_file_path: Path, im_sure: bool = False) -> bool:
     """
     if im_sure:
         graph_logger.info("Dropping database")
-        with open(database_file_path, "w") as file_handle:
-            database = dict()
-            file_handle.seek(0)
-            dump(database, file_handle, indent=4)
-            file_handle.truncate()
+        database = dict()
+        replace_file(database_file_path, dumps(database, indent=4))
 
         graph_logger.info("Database successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/index_helpers.py b/wiggle_query_language/graph/database/indexes/index_helpers.py
index d24b988..31731ff 100644
--- a/wiggle_query_language/graph/database/indexes/index_helpers.py
+++ b/wiggle_query_language/graph/database/indexes/index_helpers.py
@@ -1,8 +1,9 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.replace_file import replace_file
 
 
 def add_items_set_to_index_by_name(
@@ -15,14 +16,12 @@ def add_items_set_to_index_by_name(
     :param index_name: The name of the index.
     :return: A bool.
     """
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
         node_label_indexes = set(indexes_dict[index_name])
         updated_index = node_label_indexes.union(items_to_add)
-        file_handle.seek(0)
         indexes_dict[index_name] = list(updated_index)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+    replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -62,12 +61,10 @@ def wipe_index_set_by_name(
     """
     if im_sure:
         graph_logger.info(f"Dropping {index_name} indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
             indexes_dict[index_name] = []
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info(f"{index_name} successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 1f93e9d..b9038c5 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -1,10 +1,11 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Optional
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from wiggle_query_language.graph.database.indexes import NODE_RELATIONSHIPS_INDEX_NAME
+from wiggle_query_language.graph.replace_file import replace_file
 
 
 def json_to_dict(
@@ -27,7 +28,7 @@ def add_items_to_node_relationships_index(
     :return: A bool.
     """
 
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
         rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
@@ -39,12 +40,8 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-        file_handle.seek(0)
-
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
-
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+    replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -86,12 +83,10 @@ def wipe_node_relationships_index(
     """
     if im_sure:
         graph_logger.info("Dropping relationship indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
             indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info("Relationship indexes successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/replace_file.py b/wiggle_query_language/graph/replace_file.py
new file mode 100644
index 0000000..c95f237
--- /dev/null
+++ b/wiggle_query_language/graph/replace_file.py
@@ -0,0 +1,28 @@
+import os
+from pathlib import Path
+
+
+def replace_file(file_path: Path, content: str) -> bool:
+    """
+    Replaces the content of a file as a whole, a crash leaves the old or the new content.
+    :param file_path: The file path to the file.
+    :param content: The new content.
+    :return: A bool.
+    """
+    temporary_file_path = Path(f"{file_path}.new")
+
+    with open(temporary_file_path, "w") as file_handle:
+        file_handle.write(content)
+        file_handle.flush()
+        os.fsync(file_handle.fileno())
+
+    os.replace(temporary_file_path, file_path)
+
+    # The replacement itself has to survive a power loss too
+    folder = os.open(temporary_file_path.parent, os.O_RDONLY)
+    try:
+        os.fsync(folder)
+    finally:
+        os.close(folder)
+
+    return True
diff --git a/wiggle_query_language/graph/state/wiggle_number.py b/wiggle_query_language/graph/state/wiggle_number.py
index 5a99305..74d0926 100644
--- a/wiggle_query_language/graph/state/wiggle_number.py
+++ b/wiggle_query_language/graph/state/wiggle_number.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.replace_file import replace_file
 from testing import WIGGLE_NUMBER_TEST_FILE_PATH
 
 
@@ -35,8 +36,7 @@ def update_wiggle_number(file_path: Path, new_wiggle_number: int) -> int:
     """
 
     graph_logger.debug("Updating state for WiggleNumber")
-    with open(file_path, "w") as file_handle:
-        file_handle.write(str(new_wiggle_number))
+    replace_file(file_path, str(new_wiggle_number))
     graph_logger.debug("Successfully updated state for WiggleNumber")
     return new_wiggle_number
 
-- 
2.43.0


From 50fb875c53bd7fea00c45060650dc2f56c7bc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 29/44] fix: take the wiggle numbers before storing the nodes,
 so that a crash in between does not block every later MAKE

---
 wiggle_query_language/clauses/make/make.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 8c827bd..ef2eb73 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -171,10 +171,11 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
     nodes_list = [make_nodes(emit_nodes) for emit_nodes in emit_nodes_list]
     nodes_list_flat = [item for sublist in nodes_list for item in sublist]
 
-    # Commit if only not errors
-    add_nodes_to_graph(
-        nodes_list=nodes_list_flat,
-        gdbms_file_path=gdbms_file_path,
+    # The WNs are taken first and the Nodes are stored last: after a crash no WN is
+    # given out again and nothing is stored that is not in the indexes
+    update_wiggle_number(
+        new_wiggle_number=current_wiggle_number,
+        file_path=gdbms_file_path.wiggle_number_file_path,
     )
     # Add Indexes
     add_indexes(
@@ -183,10 +184,10 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
         gdbms_file_path=gdbms_file_path,
     )
 
-    # Update WiggleNumber if no errors
-    update_wiggle_number(
-        new_wiggle_number=current_wiggle_number,
-        file_path=gdbms_file_path.wiggle_number_file_path,
+    # Commit if only not errors
+    add_nodes_to_graph(
+        nodes_list=nodes_list_flat,
+        gdbms_file_path=gdbms_file_path,
     )
 
     return True
-- 
2.43.0


From 89ef2999d96fa81133b255cb308286495892212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 30/44] fix: let only one shell at a time query a database, so
 that no nodes of another shell get lost

---
 wiggle_query_language/graph/lock_folder.py | 27 ++++++++++++++++++++++
 wiggle_shell/core/query/query.py           |  5 +++-
 2 files changed, 31 insertions(+), 1 deletion(-)
 create mode 100644 wiggle_query_language/graph/lock_folder.py

diff --git a/wiggle_query_language/graph/lock_folder.py b/wiggle_query_language/graph/lock_folder.py
new file mode 100644
index 0000000..f8f5cb0
--- /dev/null
+++ b/wiggle_query_language/graph/lock_folder.py
@@ -0,0 +1,27 @@
+import os
+from contextlib import contextmanager
+from pathlib import Path
+from typing import Generator
+
+try:
+    import fcntl
+except ImportError:  # not on every platform
+    fcntl = None
+
+
+@contextmanager
+def lock_folder(folder_path: Path) -> Generator:
+    """
+    Makes other shells wait that want to lock the same folder.
+    :param folder_path: The folder of the DBMS.
+    """
+    if fcntl is None:
+        yield
+        return
+
+    folder = os.open(folder_path, os.O_RDONLY)
+    try:
+        fcntl.flock(folder, fcntl.LOCK_EX)
+        yield
+    finally:
+        os.close(folder)
diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 4df0d08..f4baf37 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -19,6 +19,7 @@ from wiggle_query_language.clauses.report import (
     report,
     parse_report_statement_from_query_string,
 )
+from wiggle_query_language.graph.lock_folder import lock_folder
 
 #  todo docstrings
 
@@ -98,7 +99,9 @@ def query(query_string: str, gdbms_file_path: GDBMSFilePath) -> bool:
 
     raw_query = parse_query_string(query_string)
 
-    execute_query(raw_query, gdbms_file_path)
+    # Another shell may use the same database
+    with lock_folder(gdbms_file_path.database_file_path.parent):
+        execute_query(raw_query, gdbms_file_path)
 
     return True
 
-- 
2.43.0


From 1ba3f76475ee63728136569af8dcd09978ecbe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 31/44] fix: refuse a property that is given twice, instead of
 dropping its first value

---
 .../clauses/parsing_helpers/parse_properties.py               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 457cb44..c2944a4 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -39,6 +39,10 @@ def parse_properties(properties_string: str) -> dict:
                 raise WiggleGraphIllegalPropertyValue(
                     f"Error for setting property in {properties_string} {make_primitive_property.property_name} was empty a value must be supplied"
                 )
+            if make_primitive_property.property_name in primitive_property_dictionary:
+                raise WiggleGraphIllegalPropertyValue(
+                    f"{make_primitive_property.property_name} is given twice in {properties_string}"
+                )
             try:
                 value_parsed = handle_extracted_property(make_primitive_property)
             except WiggleGraphIllegalPropertyValue as e:
-- 
2.43.0


From 54b554844c2748bfffa927b92e7df30a24c208a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 32/44] fix: look for every pattern of a FIND, not only for the
 first one

---
 models/wql/parsing/parsed_query.py            |  1 +
 .../clauses/find/__init__.py                  |  4 +--
 wiggle_query_language/clauses/find/find.py    | 30 +++++++++++++++++--
 .../find/parse_find/parse_find_statement.py   |  9 ++++--
 wiggle_shell/core/query/query.py              |  8 ++---
 5 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/models/wql/parsing/parsed_query.py b/models/wql/parsing/parsed_query.py
index 64de6cf..49df9f6 100644
--- a/models/wql/parsing/parsed_query.py
+++ b/models/wql/parsing/parsed_query.py
@@ -96,6 +96,7 @@ class ParsedFind(BaseModel):
     raw_statement: str = Field(regex=FIND_STATEMENT_ALL_REGEX.pattern)
     clause: Clause = Clause.FIND
     parsed_pattern: ParsedPattern
+    further_parsed_patterns: list[ParsedPattern] = Field(default=list())
     parsed_pattern_handles: set[str] = Field(default=set())
 
     def __len__(self) -> int:
diff --git a/wiggle_query_language/clauses/find/__init__.py b/wiggle_query_language/clauses/find/__init__.py
index 60c9ef0..fb55ad5 100644
--- a/wiggle_query_language/clauses/find/__init__.py
+++ b/wiggle_query_language/clauses/find/__init__.py
@@ -1,6 +1,6 @@
-from wiggle_query_language.clauses.find.find import find
+from wiggle_query_language.clauses.find.find import find, process_all_patterns
 from wiggle_query_language.clauses.find.parse_find.parse_find_statement import (
     parse_find_statement_from_query_string,
 )
 
-__all__ = ["find", "parse_find_statement_from_query_string"]
+__all__ = ["find", "parse_find_statement_from_query_string", "process_all_patterns"]
diff --git a/wiggle_query_language/clauses/find/find.py b/wiggle_query_language/clauses/find/find.py
index 96db607..822787d 100644
--- a/wiggle_query_language/clauses/find/find.py
+++ b/wiggle_query_language/clauses/find/find.py
@@ -1,24 +1,48 @@
 from typing import Optional
 
 from models.wigish import GDBMSFilePath
-from models.wql import ParsedCriteria, ParsedFind
+from models.wql import FindPre, ParsedCriteria, ParsedFind
 from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.find.short_circuits.find_short_circuits import (
     find_short_circuit,
 )
 
 
+def process_all_patterns(
+    parsed_find: ParsedFind,
+    parsed_criteria: Optional[ParsedCriteria] = None,
+) -> list[FindPre]:
+    """
+    Processes every pattern of the parsed find.
+    :param parsed_find: The extracted FIND statement.
+    :param parsed_criteria: The extracted CRITERIA statement.
+    :return: A processed find pre for each pattern.
+    """
+    return [
+        process_parsed_find(
+            parsed_find=parsed_find.copy(update={"parsed_pattern": pattern}),
+            parsed_criteria=parsed_criteria,
+        )
+        for pattern in (
+            parsed_find.parsed_pattern,
+            *parsed_find.further_parsed_patterns,
+        )
+    ]
+
+
 def find(
     parsed_find: ParsedFind,
     gdbms_file_path: GDBMSFilePath,
     parsed_criteria: Optional[ParsedCriteria] = None,
 ) -> Optional[dict]:
-    who_what_where = process_parsed_find(
+    who_what_where = process_all_patterns(
         parsed_find=parsed_find, parsed_criteria=parsed_criteria
     )
 
     # Short Circuits!
-    if not find_short_circuit(who_what_where, gdbms_file_path):
+    if not all(
+        find_short_circuit(find_pre, gdbms_file_path) for find_pre in who_what_where
+    ):
         print("\nNo results\n")
         return None
 
diff --git a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
index b9ee7c6..0dcca29 100644
--- a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
+++ b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
@@ -22,12 +22,17 @@ def build_parsed_find(statement: str) -> ParsedFind:
     parsed_pattern_dict = [
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
-    parsed_pattern = ParsedPattern(**parsed_pattern_dict[0])
+    parsed_pattern, *further_parsed_patterns = [
+        ParsedPattern(**pattern_dict) for pattern_dict in parsed_pattern_dict
+    ]
 
     parsed_find = ParsedFind(
         raw_statement=statement,
         parsed_pattern=parsed_pattern,
-        parsed_pattern_handles=parsed_pattern.pattern_handles,
+        further_parsed_patterns=further_parsed_patterns,
+        parsed_pattern_handles=parsed_pattern.pattern_handles.union(
+            *(pattern.pattern_handles for pattern in further_parsed_patterns)
+        ),
     )
 
     return parsed_find
diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index f4baf37..5a1d02c 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -9,8 +9,8 @@ from project_root import get_project_root
 from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
+    process_all_patterns,
 )
-from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -37,9 +37,7 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = (
-        find_parsed.parsed_pattern.pattern_handles if find_parsed else None
-    )
+    find_query_handles = find_parsed.parsed_pattern_handles if find_parsed else None
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
@@ -60,7 +58,7 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
     if parsed_query.find_parsed:
         # A FIND that is refused must not leave the MAKE of its query behind
-        process_parsed_find(parsed_query.find_parsed, parsed_query.criteria_parsed)
+        process_all_patterns(parsed_query.find_parsed, parsed_query.criteria_parsed)
 
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
-- 
2.43.0


From d14afcaec09c11cc1f1eeebf6de88c472bcde74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 33/44] fix: refuse a MAKE, FIND or REPORT that is not a
 statement, instead of skipping it

---
 .../clauses/parsing_helpers/extract_statements.py          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index b2fc910..a66d038 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -1,5 +1,7 @@
+from re import IGNORECASE, search
 from typing import Optional
 
+from exceptions.wql.parsing import ClauseSyntaxError
 from models.wql import Clause
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     check_clause_spelling,
@@ -33,7 +35,10 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
             raise Exception()
 
     # A misspelt statement is an error even when another one is spelt correctly
-    check_clause_spelling(clause_all_regex.sub(" ", query_string), clause)
+    leftover = clause_all_regex.sub(" ", query_string)
+    check_clause_spelling(leftover, clause)
+    if search(rf"(?:^|;)\s*{clause.value}\b", leftover, flags=IGNORECASE):
+        raise ClauseSyntaxError(f"Not a valid {clause.value} statement: {leftover}")
 
     if make_matches := [
         x.group().strip() for x in clause_all_regex.finditer(query_string)
-- 
2.43.0


From d1a0774bbc7906107101fb4bae37d35d1de91c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 34/44] fix: refuse words and commas around the patterns of a
 MAKE or FIND, instead of skipping them

---
 .../clauses/parsing_helpers/parse_statement_checks.py      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index fe90f94..aa0f331 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -198,8 +198,11 @@ def check_nodes_rels_patterns(stmt_matches: list[str]) -> bool:
         patterns = [
             x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(stmt) if x.group()
         ]
-        commas = "," * (len(patterns) - 1)
-        if not fullmatch(rf"\w+{commas};", NODES_RELS_PATTERN_REGEX.sub("", stmt)):
+        # Only the clause, and the commas between the patterns, may be left
+        leftover = NODES_RELS_PATTERN_REGEX.sub(
+            lambda match: "#" if match.group() else "", stmt
+        )
+        if not fullmatch(r"\w+#(,#)*;", leftover):
             raise ClauseSyntaxError(f"Not a valid pattern: ---> {stmt} <---")
 
         for pattern in patterns:
-- 
2.43.0


From 64a65b0fdfbe46b2fb7b6cb31321b0239e95e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 35/44] fix: refuse a MAKE, FIND or REPORT that is not a
 statement also behind other text

---
 .../clauses/parsing_helpers/extract_statements.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index a66d038..95983fb 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -35,7 +35,7 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
             raise Exception()
 
     # A misspelt statement is an error even when another one is spelt correctly
-    leftover = clause_all_regex.sub(" ", query_string)
+    leftover = clause_all_regex.sub(";", query_string)
     check_clause_spelling(leftover, clause)
     if search(rf"(?:^|;)\s*{clause.value}\b", leftover, flags=IGNORECASE):
         raise ClauseSyntaxError(f"Not a valid {clause.value} statement: {leftover}")
-- 
2.43.0


From ff004a9569d2d3481f9ceaa253ce5cab7e42a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 36/44] fix: make the files of a new database durable, so that
 a power loss during its first query does not break it

---
 wiggle_shell/core/select_gdbms/select_database_file.py      | 6 ++----
 wiggle_shell/core/select_gdbms/select_index_file.py         | 6 ++----
 wiggle_shell/core/select_gdbms/select_wiggle_number_file.py | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 5b868b1..a131b31 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.replace_file import replace_file
 from wiggle_shell import DBMS_FOLDER
 
 
@@ -20,12 +21,9 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     if new_database_file_path.is_file():
         raise ValueError("A Database file already exists")
 
-    new_database_file_path.touch()
-
     new_db_dict = dict()
 
-    with open(new_database_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_db_dict))
+    replace_file(new_database_file_path, dumps(new_db_dict))
 
     return new_database_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 462e898..e279326 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.replace_file import replace_file
 from wiggle_shell import DBMS_FOLDER
 
 
@@ -22,16 +23,13 @@ def create_new_indexes_file(
     if new_indexes_file_path.is_file():
         raise ValueError("An Indexes file already exists")
 
-    new_indexes_file_path.touch()
-
     new_index_dict = {
         "node_relationships": {},
         "node_labels": [],
         "relationship_names": [],
     }
 
-    with open(new_indexes_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_index_dict))
+    replace_file(new_indexes_file_path, dumps(new_index_dict))
 
     return new_indexes_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index 2dc51eb..2e509cd 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_query_language.graph.replace_file import replace_file
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
 INPUT_PROMPT_SPACING = " " * 5
@@ -22,10 +23,7 @@ def create_new_wiggle_number_file(
     if new_wn_state_file_path.is_file():
         raise ValueError("A WiggleNUmber file already exists")
 
-    new_wn_state_file_path.touch()
-
-    with open(new_wn_state_file_path, "w") as file:
-        file.write("0")
+    replace_file(new_wn_state_file_path, "0")
 
     return new_wn_state_file_path
 
-- 
2.43.0


From 6c981cdd9b74af5fe6f9c249cbec681d3054324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 37/44] fix: leave no half of a database behind when its
 creation fails, and let only one of two creations at the same time succeed

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 7f6d457..1f4327f 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,6 @@
 import os
 from pathlib import Path
+from shutil import rmtree
 from string import ascii_uppercase
 from typing import Optional
 
@@ -98,12 +99,20 @@ def get_new_gdbms_file_paths(
         # The name is one folder in the DBMS folder, which holds nothing else
         if new_gdbms_name in {"", ".", ".."} or "/" in new_gdbms_name:
             raise ValueError(f"{new_gdbms_name} is not a valid name")
-        if path_to_dbms_dir.joinpath(new_gdbms_name).exists():
+        try:
+            # Only one of the shells that make it at the same time succeeds
+            path_to_dbms_dir.joinpath(new_gdbms_name).mkdir(parents=True)
+        except FileExistsError:
             raise ValueError(f"{new_gdbms_name} already exists")
         # todo cancel operation
-        db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
-        indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
-        wn_path = create_new_wiggle_number_file(new_gdbms_name, path_to_dbms_dir)
+        try:
+            db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
+            indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
+            wn_path = create_new_wiggle_number_file(new_gdbms_name, path_to_dbms_dir)
+        except OSError:
+            # Half of a database is of no use, and it would keep the name taken
+            rmtree(path_to_dbms_dir.joinpath(new_gdbms_name), ignore_errors=True)
+            raise
         print(f"Using {new_gdbms_name}")
         return GDBMSFilePath(
             database_file_path=db_path,
-- 
2.43.0


From 068867d93e4f3acef9befd3e8751c9b3ad39d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 38/44] fix: refuse decimals that are too large to be stored

A decimal of more than 308 digits, or 1e999 in a list, was stored as Infinity.
---
 .../clauses/parsing_helpers/parse_properties.py              | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index c2944a4..334b852 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from math import isinf
 from re import fullmatch, search, sub
 from typing import Optional
 
@@ -144,6 +145,8 @@ def handle_float_property(value: str) -> float:
         )
     try:
         found_float = float(value)
+        if isinf(found_float):
+            raise ValueError("too large")
         graph_logger.debug(f"{value} was determined to be a float: {found_float}")
         return found_float
     except (TypeError, ValueError):
@@ -192,6 +195,8 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
     if not all(isinstance(x, (int, float, str, type(None))) for x in found_list):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} has an unsupported type.")
+    if any(isinstance(x, float) and isinf(x) for x in found_list):
+        raise WiggleGraphIllegalPropertyValue(f"{value_in} has a number too large.")
     # Python would join adjacent strings, or take a letter before one as a prefix
     if search(r"""[^\[,\s]\s*''""", sub(r"""("[^"]*"|'[^']*')""", "''", value)):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} is missing a comma.")
-- 
2.43.0


From a1572aa0d2c513a08be993944fbd75cbe6eabd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 39/44] fix: read properties with many spaces without trying
 every way to divide them

---
 wiggle_query_language/clauses/regexes/patterns/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 5af3618..3c0a701 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -7,7 +7,7 @@ ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
         r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
         r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]*\])|"
-        r"(?P<string_type>\"[^\"]*\"|'[^']*'|[\w+@\.\s]+))(?=\s*[,}])"
+        r"(?P<string_type>\"[^\"]*\"|'[^']*'|[\w+@\.\s]+(?=[,}])))(?=\s*[,}])"
     ),
     flags=IGNORECASE,
 )
-- 
2.43.0


From 6cdf69568329763201e4fceb4545db8db82f6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 40/44] fix: refuse a node or relationship that does not end
 without trying every way to divide it

---
 .../parsing_helpers/parse_statement_checks.py | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index aa0f331..5aac6b5 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import fullmatch, split
+from re import fullmatch, search, split
 
 from exceptions.wql.parsing import (
     ClauseSyntaxError,
@@ -22,6 +22,9 @@ from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
 )
+from wiggle_query_language.clauses.regexes.patterns.patterns_helpers import (
+    get_all_params_regex,
+)
 from wiggle_query_language.clauses.regexes.report.report_patterns import (
     REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
 )
@@ -188,6 +191,21 @@ def check_statement_syntax(stmt_matches: list[str]) -> bool:
     return True
 
 
+def check_nodes_rels_closed(stmt_matches: list[str]) -> bool:
+    """
+    Checks that each Node and Relationship ends, before the regexes that read them
+    try every way to divide the text of one that does not.
+    :param stmt_matches: The extracted statements.
+    :return: True or raises and exception.
+    """
+    params_regex = get_all_params_regex()
+    for stmt in stmt_matches:
+        if search(rf"\((?!{params_regex}\))|-\[(?!{params_regex}(?<=])-)", stmt):
+            raise ClauseSyntaxError(f"Not a valid pattern: ---> {stmt} <---")
+
+    return True
+
+
 def check_nodes_rels_patterns(stmt_matches: list[str]) -> bool:
     """
     Checks that the MAKE/FIND statement is made of complete patterns and nothing else.
@@ -227,6 +245,7 @@ def validate_statement(stmt_matches: list[str]) -> bool:
     check_statement_syntax(stmt_matches)
     check_illegal_characters(stmt_matches)
     check_node_rel_properties(stmt_matches)
+    check_nodes_rels_closed(stmt_matches)
     check_relationships(stmt_matches)
     check_nodes_rels_patterns(stmt_matches)
 
-- 
2.43.0


From 191330863f029dcf33dcdebfef16f2177f5be51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 41/44] fix: refuse a list with a word without quotes with an
 error of WiggleGraph that names it

---
 .../clauses/parsing_helpers/parse_statement_checks.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 5aac6b5..7f1b567 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -107,6 +107,10 @@ def check_node_rel_properties(stmt_matches: list[str]) -> True:
                         raise ParamSyntaxError(
                             message=f"SyntaxError: {params_lists} missing a comma?"
                         )
+                    except ValueError:
+                        raise ParamSyntaxError(
+                            message=f"SyntaxError: {params_list} missing quotes?"
+                        )
 
     return True
 
-- 
2.43.0


From 25ef58279bf932397d28b211cee4d00b5ad6745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:07 +0000
Subject: [PATCH 42/44] fix: accept whitespace between the braces of empty
 properties

---
 .../clauses/parsing_helpers/parse_statement_checks.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 7f1b567..3cbfc20 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -68,6 +68,9 @@ def check_property_syntax(params_string: str) -> bool:
     :return: True or raises and exception.
     """
 
+    if not params_string.strip("{}").strip():
+        return True
+
     exp_param_count = params_string.count(",") + 1
     colon_count = params_string.count(":")
     if exp_param_count != colon_count:
-- 
2.43.0


From a821d06d50f124803803672aac4483a1c60de200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:24 +0000
Subject: [PATCH 43/44] fix: a query keeps the rights and links of the files of
 its database

The file that replaces another one got the rights of a new file (a private
database became readable for all), took the place of a link, and replaced
files that may not be written.
---
 wiggle_query_language/graph/replace_file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wiggle_query_language/graph/replace_file.py b/wiggle_query_language/graph/replace_file.py
index c95f237..1cdcbc0 100644
--- a/wiggle_query_language/graph/replace_file.py
+++ b/wiggle_query_language/graph/replace_file.py
@@ -1,5 +1,6 @@
 import os
 from pathlib import Path
+from shutil import copymode
 
 
 def replace_file(file_path: Path, content: str) -> bool:
@@ -9,9 +10,17 @@ def replace_file(file_path: Path, content: str) -> bool:
     :param content: The new content.
     :return: A bool.
     """
+    # A link stays a link, and a file that may not be written is not replaced
+    if os.path.islink(file_path):
+        file_path = os.path.realpath(file_path)
+    replaces = os.path.exists(file_path)
+    if replaces and not os.access(file_path, os.W_OK):
+        raise PermissionError(f"{file_path} may not be written")
     temporary_file_path = Path(f"{file_path}.new")
 
     with open(temporary_file_path, "w") as file_handle:
+        if replaces:
+            copymode(file_path, temporary_file_path)
         file_handle.write(content)
         file_handle.flush()
         os.fsync(file_handle.fileno())
-- 
2.43.0


From ae0a7a8ac63743ee29593cf34677be89b75c45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:26 +0000
Subject: [PATCH 44/44] fix: a database that may not be entered does not end
 the selection

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 1f4327f..3a2da0a 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -163,7 +163,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
                 indexes_file_path=indexes_path,
                 wiggle_number_file_path=wn_path,
             )
-        except FileNotFoundError as e:
+        except (FileNotFoundError, PermissionError) as e:
             print(f"Database files could not be found {e}")
             continue
 
-- 
2.43.0

