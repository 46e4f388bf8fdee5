From 1858baedcdb7e15214e2fbb5efd06118d608fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 001/104] fix: widen p_db_meta.col_info, an encrypted column's
 metadata does not fit VARCHAR(256)

---
 README.md             | 2 +-
 data/schema-mysql.sql | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 6238bcd..1c2f8b3 100644
--- a/README.md
+++ b/README.md
@@ -14,7 +14,7 @@ create table p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 ```
diff --git a/data/schema-mysql.sql b/data/schema-mysql.sql
index 78cd1a3..efd21ad 100644
--- a/data/schema-mysql.sql
+++ b/data/schema-mysql.sql
@@ -156,7 +156,7 @@ IF NOT EXISTS p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 
-- 
2.43.0


From 4fa88b6aabafb1c5abd880cd2ba16de8e10e48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 002/104] fix: record the first table of a fresh install where
 SUM and AVG look for it

---
 scheduler/schema/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0ad152d..72acb93 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -112,7 +112,7 @@ class Delta(object):
                 self.meta[db_name].update(table_meta)
 
         else:
-            self.meta = {
+            Delta.meta = {
                 db_name: table_meta
             }
         # update database meta
-- 
2.43.0


From a9ca3af50429719b45c2ee8210c2725ca7b2864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 003/104] fix: keep the direction of ORDER BY on an encrypted
 column, and accept several sort columns

---
 scheduler/handers/clause/function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 2211909..7445a3d 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -6,8 +6,10 @@ class OrderBy(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, orderby_val, table, json=None):
+        if isinstance(orderby_val, list):
+            return [self.rewrite(val, table) for val in orderby_val]
         col = self.db_meta[table]['columns'][orderby_val['value']]
         if col['plaintext']:
             return orderby_val
         else:
-            return {'value': col['enc-cols']['order-preserving']}
+            return {**orderby_val, 'value': col['enc-cols']['order-preserving']}
-- 
2.43.0


From ddd226086765d4317f59d7990a75cb233c387911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 004/104] fix: format every row of an INSERT, NULL values and a
 single column included

---
 sql_parsing/formatting.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 17e2443..d5c8d7f 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -374,10 +374,10 @@ class Formatter:
             ))
         elif isinstance(json, string_types):
             return "'{0}'".format(json.replace("'", "''"))
-        elif isinstance(json, dict):
+        elif isinstance(json, dict) and "literal" in json:
             return self._literal(json["literal"])
         else:
-            return str(json)
+            return self.dispatch(json)
 
     def _get(self, json, prec):
         v, i = json
@@ -590,7 +590,7 @@ class Formatter:
         acc.append(json["insert"])
 
         if "columns" in json:
-            acc.append(self.sql_list(json["columns"]))
+            acc.append(self.sql_list(listwrap(json["columns"])))
         if "values" in json:
             values = json["values"]
             if all(isinstance(row, dict) for row in values):
@@ -607,24 +607,26 @@ class Formatter:
                 if "if exists" in json:
                     acc.append("IF EXISTS")
                 acc.append("VALUES")
-                for row in values:
-                    acc.append("(" + ", ".join(self._literal(row)) + ")")
-        elif "query" in json:
-            query_values = json["query"]
-            if "select" in query_values:
-                values = query_values["select"]
-                if all(isinstance(row, dict) for row in values):
-                    if "if exists" in json:
-                        acc.append("IF EXISTS")
-                    acc.append("VALUES")
-                    acc.append(
-                        "(" + ", ".join(self._literal(v['value']) for v in values) + ")"
-                    )
-
+                acc.append(",\n".join(
+                    "(" + ", ".join(self._literal(v) for v in listwrap(row)) + ")"
+                    for row in values
+                ))
         else:
+            query = json["query"]
+            rows = query["union_all"] if "union_all" in query else [query]
             if "if exists" in json:
                 acc.append("IF EXISTS")
-            acc.append(self.dispatch(json["query"]))
+            if all(row.keys() == {"select"} for row in rows):
+                # VALUES, EACH ROW IS A select OF CONSTANTS
+                acc.append("VALUES")
+                acc.append(",\n".join(
+                    "(" + ", ".join(
+                        self.dispatch(v["value"]) for v in listwrap(row["select"])
+                    ) + ")"
+                    for row in rows
+                ))
+            else:
+                acc.append(self.dispatch(query))
         return " ".join(acc)
 
     def drop(self, json, prec=precedence["from"]):
-- 
2.43.0


From e086ab63e1309361f9f9bbf9e30ec65028f8a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 005/104] fix: encrypt every row of an INSERT, NULL values, a
 single column and a missing column list included

---
 scheduler/handers/clause/__init__.py    |  2 +-
 scheduler/handers/clause/sql_columns.py |  2 +-
 scheduler/handers/clause/sql_values.py  | 17 +++++++++++++++--
 scheduler/handers/rewrite_hander.py     | 16 ++++++++++++++++
 4 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index d8df19e..3fc0049 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -20,7 +20,7 @@ clause = {
     'orderby': OrderBy,
     'columns': SQLColumns,
     'drop': SQLDrop,
-    'query': {'select': SQLValues},
+    'query': SQLValues,
     'alter': AnonymousTable,
     'reference_table': AnonymousTable,
     'add primary key': SQLSelect,
diff --git a/scheduler/handers/clause/sql_columns.py b/scheduler/handers/clause/sql_columns.py
index 5699940..8c6e9ca 100644
--- a/scheduler/handers/clause/sql_columns.py
+++ b/scheduler/handers/clause/sql_columns.py
@@ -8,7 +8,7 @@ class SQLColumns(Rewriter):
     def rewrite(self, columns, table, json=None):
         enc_table_meta = self.db_meta[table]
         new_columns = []
-        for col in columns:
+        for col in columns if isinstance(columns, list) else [columns]:
             if enc_table_meta['columns'][col]['plaintext']:
                 new_columns.append(col)
             else:
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 5f37443..3f86cf4 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -7,19 +7,32 @@ class SQLValues(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, values, table, json=None):
+        columns = json['columns'] if isinstance(json['columns'], list) else [json['columns']]
+        rows = values.get('union_all', [values])
+        if any(row.keys() != {'select'} for row in rows):
+            raise Exception("insert only supports a list of values")
+        rows = [row['select'] if isinstance(row['select'], list) else [row['select']] for row in rows]
+        rows = [self.rewrite_row(columns, row, table) for row in rows]
+        return {'union_all': rows} if len(rows) > 1 else rows[0]
+
+    def rewrite_row(self, columns, values, table):
+        if len(columns) != len(values):
+            raise Exception("Column count doesn't match value count")
         new_values = []
         enc_table_meta = self.db_meta[table]
-        for col, value in zip(json['columns'], values):
+        for col, value in zip(columns, values):
             if enc_table_meta['columns'][col]['plaintext']:
                 new_values.append(value)
             else:
                 for enc in enc_table_meta['columns'][col]['enc-cols'].keys():
                     new_values.append(self.encrypt_value(table, col, value['value'], enc))
-        return new_values
+        return {'select': new_values}
 
     def encrypt_value(self, table, col, value, enc):
         key = self.db_meta[table]['columns'][col]['key']
         if isinstance(value, dict):
+            if 'null' in value:
+                return {'value': value}
             value = value['literal']
         value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
         if enc == "order-preserving":
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index cab970b..ef94ca8 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -26,6 +26,8 @@ class Rewriter(Clause):
             return rewrite_table(self.db, self.db_meta, query, self.encrypted_cols)
         alter_key_json = parse_alter_key(query)
         json = parse(query) if not alter_key_json else alter_key_json
+        if 'insert' in json:
+            self.normalize_insert(json)
         # if 'limit' in json.keys():
         #     self.limit = abs(int(json['limit']))
         source_json = copy.deepcopy(json)
@@ -76,6 +78,20 @@ class Rewriter(Clause):
             return format_alter_key(json), table
         return format(json), table
 
+    def normalize_insert(self, json):
+        """
+        an INSERT is rewritten from its column list and its rows, bring the other forms to this one
+        """
+        if 'values' in json:
+            rows = json.pop('values')
+            if isinstance(rows[0], dict):
+                json['columns'] = list(rows[0])
+                rows = [list(row.values()) for row in rows]
+            json['query'] = {'union_all': [
+                {'select': [{'value': {'literal': v} if isinstance(v, str) else v} for v in row]} for row in rows]}
+        if 'columns' not in json:
+            json['columns'] = list(self.db_meta[json['insert']]['columns'])
+
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
         if isinstance(json, str):
-- 
2.43.0


From 60f6b0110f1f927eab1b8462f2d5aab7272903d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 006/104] fix: decode a double by inverting its encoding in the
 opposite order

---
 scheduler/crypto/encrypt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 2a7094e..5656e1d 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -49,7 +49,7 @@ def stretch(val):
 def inverse_stretch(val):
     # piecewise linear function [10**15, 10**19, 10**22, 10**24], [10**15, 10**42, 10**56, 10**65]
     if val < 0:
-        return -stretch(-val)
+        return -inverse_stretch(-val)
     if 10**15 >= val >= 0:
         return val
     if 10**19 >= val > 10**15:
@@ -80,8 +80,7 @@ def decode(val, val_type):
     if val_type == 'float':
         return val / 10 ** 12
     if val_type == 'double':
-        val = inverse_stretch(val)
-        return val / 10 ** 12
+        return inverse_stretch(val / 10 ** 12)
     return val
 
 
-- 
2.43.0


From cfc73014062f51ebd1838a52b852886729e58048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 007/104] fix: encode floats exactly, truncation lost the last
 digit

---
 scheduler/crypto/encrypt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 5656e1d..0b7e7a4 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -17,6 +17,7 @@ from base64 import b64decode
 from base64 import b64encode
 from hashlib import sha256
 from functools import reduce
+from decimal import Decimal
 import random
 
 from cryptography.hazmat.primitives import padding
@@ -62,10 +63,10 @@ def inverse_stretch(val):
 
 def encode(val, val_type):
     if val_type == 'float':
-        return int(val * 10 ** 12)
+        return int(Decimal(str(float(val))) * 10 ** 12)
     if val_type == 'double':
-        val = stretch(val)
-        return int(val * 10 ** 12)
+        val = stretch(float(val))
+        return int(Decimal(str(val)) * 10 ** 12)
     return val
 
 
-- 
2.43.0


From 1ab47d3fa3284fd2563cf3014c455e3f29dd6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 008/104] fix: encrypt the values of an UPDATE like those of an
 INSERT

---
 scheduler/handers/clause/sql_set.py    | 6 +++---
 scheduler/handers/clause/sql_values.py | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index f821e05..6e7e810 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,11 +1,11 @@
-from scheduler.handers.clause.sql_where import SQLWhere
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.rewriter import Rewriter
 
 
 class SQLSet(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
-        self.where = SQLWhere(db_meta)
+        self.values = SQLValues(db_meta)
 
     def rewrite(self, set_value, table, json=None):
         result = {}
@@ -15,5 +15,5 @@ class SQLSet(Rewriter):
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
-                    result[v1] = self.where.rewrite(v, table, k1, key=enc_table_meta['columns'][k]['key'])
+                    result[v1] = self.values.encrypt_value(table, k, v, k1)['value']
         return result
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 3f86cf4..1bcc52c 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -34,6 +34,8 @@ class SQLValues(Rewriter):
             if 'null' in value:
                 return {'value': value}
             value = value['literal']
+        elif isinstance(value, str):
+            raise Exception("a constant is expected for encrypted column {}, not {}".format(col, value))
         value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
         if enc == "order-preserving":
             return {'value': encrypt.OPECipher(key).encrypt(int(value))}
-- 
2.43.0


From 9e00b0f70490eecf48bece2b6f474e90de2a2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 009/104] fix: compare float and double columns in WHERE with
 an encoded and encrypted constant

---
 scheduler/handers/clause/sql_where.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index fc6cfb6..f20f49f 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -1,13 +1,19 @@
 import logging
+import math
 
 from scheduler.crypto import encrypt
 from scheduler.utils.keywords import Logical_Operation
 from scheduler.handers.clause.rewriter import Rewriter
+from scheduler.handers.clause.sql_values import SQLValues
 
 
 class SQLWhere(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
+        self.values = SQLValues(db_meta)
+
+    def encrypt_constant(self, table, col, value, enc):
+        return self.values.encrypt_value(table, col, value, enc)['value']
 
     def rewrite(self, where_value, table, cipher='symmetric', json=None, key=""):
         try:
@@ -22,7 +28,7 @@ class SQLWhere(Rewriter):
                     if col:
                         if not col[v[0]]['plaintext']:
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
-                                           self.rewrite(v[1], table, key=col[v[0]]['key'])]}
+                                           self.encrypt_constant(table, v[0], v[1], "symmetric")]}
                     else:
                         # We don't handle the situation when the join items are plaintext and cipher, but the sql still
                         # works. It just returns empty result...
@@ -39,9 +45,11 @@ class SQLWhere(Rewriter):
 
                 if k in ['gt', 'lt', 'gte', 'lte']:
                     if not col[v[0]]['plaintext']:
-                        if col[v[0]]['type'] == 'int':
-                            return {k: [col[v[0]]['enc-cols']["order-preserving"],
-                                        self.rewrite(v[1], table, cipher='order-preserving', key=col[v[0]]['key'])]}
+                        value = v[1]
+                        if col[v[0]]['type'] == 'int' and isinstance(value, float):
+                            value = math.floor(value) if k in ['gt', 'lte'] else math.ceil(value)
+                        return {k: [col[v[0]]['enc-cols']["order-preserving"],
+                                    self.encrypt_constant(table, v[0], value, "order-preserving")]}
                 if k == 'like':
                     if not col[v[0]]['plaintext']:
                         return {
-- 
2.43.0


From c3a060414e0fafaaf87e846cf5733e08c384aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 010/104] fix: rewrite <> and NOT, and reject other conditions
 on an encrypted column before they reach the database

---
 scheduler/handers/clause/sql_where.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index f20f49f..cd8d709 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -15,6 +15,22 @@ class SQLWhere(Rewriter):
     def encrypt_constant(self, table, col, value, enc):
         return self.values.encrypt_value(table, col, value, enc)['value']
 
+    def check_plaintext(self, condition, table):
+        """
+        a condition which can not be rewritten must not reach the database with what it says of encrypted columns
+        """
+        if isinstance(condition, str):
+            for name in table if isinstance(table, list) else [table]:
+                columns = self.db_meta[name]['columns'] if isinstance(name, str) else {}
+                if not columns.get(condition.split('.')[-1], {'plaintext': True})['plaintext']:
+                    raise Exception("Not support this condition on encrypted column {}".format(condition))
+        elif isinstance(condition, list):
+            for c in condition:
+                self.check_plaintext(c, table)
+        elif isinstance(condition, dict) and 'literal' not in condition:
+            for c in condition.values():
+                self.check_plaintext(c, table)
+
     def rewrite(self, where_value, table, cipher='symmetric', json=None, key=""):
         try:
             col = self.db_meta[table]['columns']
@@ -43,6 +59,9 @@ class SQLWhere(Rewriter):
                                    self.db_meta[t_name1]['anonymous'] + "." + col_name1
                                    ]}
 
+                if k == 'neq' and col and not col[v[0]]['plaintext']:
+                    return {'neq': [col[v[0]]['enc-cols']["symmetric"],
+                                    self.encrypt_constant(table, v[0], v[1], "symmetric")]}
                 if k in ['gt', 'lt', 'gte', 'lte']:
                     if not col[v[0]]['plaintext']:
                         value = v[1]
@@ -58,8 +77,12 @@ class SQLWhere(Rewriter):
                         }
                 if k in Logical_Operation:
                     return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}
+                if k == 'not':
+                    return {k: self.rewrite(v, table, cipher=cipher)}
                 if k == 'literal':
                     return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
+            self.check_plaintext(where_value, table)
+            return where_value
         if isinstance(where_value, int):
             if cipher == 'fuzzy':
                 partial_list = str(where_value).split("%")
-- 
2.43.0


From 3e046f4e76af0abc6d8e89cc246054430ac39525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 011/104] fix: report a statement the database refused instead
 of answering as if it had succeeded

---
 scheduler/backend/executors/remote_executor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 8231a78..def4640 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -106,6 +106,7 @@ class RemoteExecutor(AbstractQueryExecutor):
             logger.info(e)
             if query_type == QueryType.CREATE:
                 self.meta.delete_delta(self.str_db, self.table['table'])
+            raise e
         if query_type == QueryType.DROP:
             self.meta.delete_delta(self.str_db, self.table['table'])
         elif query_type == QueryType.SELECT:
-- 
2.43.0


From 5ce51aa834ec93c1c51ad45a5be0c980d1084709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 012/104] fix: never serve a request from a pool opened for
 another server, user or password

---
 scheduler/backend/executors/remote_executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index def4640..fc4b483 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -46,13 +46,13 @@ class RemoteExecutor(AbstractQueryExecutor):
     def connect_db(conn_info):
         if not conn_info:
             return conn_info
-        db_key = conn_info['host'] + str(conn_info['port']) + conn_info['db'] + conn_info['user']
+        db_key = (conn_info['host'], str(conn_info['port']), conn_info['db'], conn_info['user'], conn_info['password'])
         if db_key not in connection_pool:
             connection = PooledDB(
                 mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                 passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
             connection_pool[db_key] = connection
-            logging.info("mysql connected from {}".format(db_key))
+            logging.info("mysql connected from {}".format(db_key[:-1]))
         else:
             connection = connection_pool[db_key]
         return connection.connection()
-- 
2.43.0


From 0d2529ac2a964e0af758eb367cdc64b6d5d21422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 013/104] fix: /rewrite_query called the rewriter with
 arguments it does not take

---
 scheduler/backend/execution_context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index 2a65655..c194c5c 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -70,4 +70,6 @@ def batch_process(query_info):
 
 
 def rewrite(query, db, encrypted_cols=None):
-    return RemoteExecutor(None).dispatch(query, db, encrypted_cols)
+    executor = ConvertExecutor()
+    executor.encrypted_cols = encrypted_cols
+    return executor.dispatch(db, query)[0]
-- 
2.43.0


From eacd09d234ba703e4ca1c15156c058284b7ddd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 014/104] fix: separate the alias from the column in a select
 list over several tables

---
 scheduler/handers/clause/sql_select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index d237736..2c02b82 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -64,7 +64,7 @@ class SQLSelect(Rewriter):
                 t_name, col_name = self.split_table_col(select_val, table)
                 true_table_name = get_origin_table(t_name, table)
                 col = self.db_meta[true_table_name]['columns'][col_name]
-                t_name = t_name if t_name != true_table_name else self.db_meta[true_table_name]['anonymous'] + "."
+                t_name = (t_name if t_name != true_table_name else self.db_meta[true_table_name]['anonymous']) + "."
                 self.select_types.append(col['type'])
                 if col['plaintext']:
                     self.select_state.append("plaintext")
-- 
2.43.0


From c3d1dbdaf3d2adf067e29bc88482a57662723365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 015/104] fix: keep using the sqlite metadata database when it
 is the one configured

---
 handler.py                   | 4 +++-
 scheduler/schema/metadata.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 7710c6a..2ec48d4 100644
--- a/handler.py
+++ b/handler.py
@@ -32,10 +32,12 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
             port=int(config['meta']['mysql']["port"])
         )
     else:
-        db_conn = sqlite3.connect(config['meta']['sqlite'])
+        db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
 
 
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 72acb93..ebd5861 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -28,6 +28,8 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
 
 
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
-- 
2.43.0


From fed65cd2d1677d301b185cb3dd6ba1a925148963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 016/104] fix: create columns with a display width, a precision
 or UNSIGNED

---
 scheduler/handers/table.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 0424c3b..99b813f 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -25,7 +25,9 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         auto_increment = '' if not col.get('auto_increment') else ' auto_increment '
         primary_key = '' if not col.get('primary_key') else ' primary key' + auto_increment
         col_name = col['name']
-        col_type = col['type']
+        col_type = col['type'] if isinstance(col['type'], dict) else {col['type']: {}}
+        unsigned = ' unsigned' if col_type.get('unsigned') else ''
+        col_type = {t_k: t_v for t_k, t_v in col_type.items() if t_k != 'unsigned'}
         columns_kv[col_name] = {}
         columns_kv[col_name]['enc-cols'] = {}
         if 'nullable' in col:
@@ -37,9 +39,10 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         if col['name'] not in encrypted_cols:
             for t_k, t_v in col_type.items():
                 if t_v:
-                    enc_col_type = t_k + '(' + str(t_v) + ')'
+                    t_v = t_v if isinstance(t_v, list) else [t_v]
+                    enc_col_type = t_k + '(' + ','.join(str(t_l) for t_l in t_v) + ')' + unsigned
                 else:
-                    enc_col_type = t_k
+                    enc_col_type = t_k + unsigned
                 if col.get('default'):
                     default_value = col['default']
                     if isinstance(default_value, dict):
@@ -53,14 +56,14 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                 columns_kv[col_name]['type'] = t_k
                 columns_kv[col_name]['key'] = ""
             continue
-        val = element_type.get(list(col['type'].keys())[0].upper())
+        val = element_type.get(list(col_type.keys())[0].upper())
         for k, v in val.items():
             primary_key_plus = primary_key if k == 'symmetric' else ''
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
             for t_k, t_v in col_type.items():
                 columns_kv[col_name]['type'] = t_k
-                if t_v:
+                if callable(v):
                     t_k, t_l = v(t_k, t_v)
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
-- 
2.43.0


From 2264c151c4a674938a56ae4e5ba43465aa2aad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 017/104] fix: pass AUTO_INCREMENT, ENGINE and COLLATE of a new
 table on to the database

---
 scheduler/handers/table.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 99b813f..e68c4de 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -23,7 +23,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     columns = columns if isinstance(columns, list) else [columns]
     for col in columns:
         auto_increment = '' if not col.get('auto_increment') else ' auto_increment '
-        primary_key = '' if not col.get('primary_key') else ' primary key' + auto_increment
+        primary_key = auto_increment if not col.get('primary_key') else ' primary key' + auto_increment
         col_name = col['name']
         col_type = col['type'] if isinstance(col['type'], dict) else {col['type']: {}}
         unsigned = ' unsigned' if col_type.get('unsigned') else ''
@@ -134,9 +134,10 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         # print('constraint', constraint)
         enc_constraint.append(get_constraint_key(constraint, columns_kv, db))
     enc_constraint = "," + ",".join(enc_constraint) if enc_constraint else ""
-    engine = 'ENGINE = ' + json.get('engine') if json.get('engine') else ''
-    table_auto_increment = 'AUTO_INCREMENT = ' + json.get('auto_increment') if json.get('auto_increment') else ''
-    table_collate = 'COLLATE = ' + json.get('collate') if json.get('collate') else ''
+    engine = ' ENGINE = ' + create_table.get('engine') if create_table.get('engine') else ''
+    table_auto_increment = ' AUTO_INCREMENT = ' + str(create_table.get('auto_increment')) \
+        if create_table.get('auto_increment') else ''
+    table_collate = ' COLLATE = ' + create_table.get('collate') if create_table.get('collate') else ''
     query = 'CREATE TABLE IF NOT EXISTS ' + anonymous_table + '(' + ",".join(enc_columns) + enc_constraint + ')' \
             + engine + table_auto_increment + table_collate + ';'
 
@@ -144,7 +145,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         table_name: {
             'anonymous': anonymous_table,
             'columns': columns_kv,
-            'comment': json.get('comment', {}).get('literal')
+            'comment': create_table.get('comment', {}).get('literal')
         }
     }
     Delta().update_delta(db, table_meta)
-- 
2.43.0


From 7bed596ebce76ddd231bbddecf030f2fadd80a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 018/104] fix: encrypt and quote the DEFAULT of a column

---
 scheduler/handers/table.py | 69 +++++++++++---------------------------
 1 file changed, 20 insertions(+), 49 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index e68c4de..1bb7a6f 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -4,7 +4,8 @@ import string
 import random
 
 from sql_parsing import parse_mysql as parse
-from scheduler.crypto import encrypt
+from sql_parsing import format
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.schema.metadata import Delta
 from scheduler.schema.metadata import element_type, fuzzy_type_fixed, arithmetic_type_fixed, sm4_type_fixed
 
@@ -43,19 +44,18 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + ','.join(str(t_l) for t_l in t_v) + ')' + unsigned
                 else:
                     enc_col_type = t_k + unsigned
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    default_value = ' DEFAULT ' + default_value
-                else:
-                    default_value = ''
+                default_value = ' DEFAULT ' + format(col['default']) if 'default' in col else ''
                 enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
                 columns_kv[col_name]['plaintext'] = True
                 columns_kv[col_name]['type'] = t_k
                 columns_kv[col_name]['key'] = ""
             continue
+        columns_kv[col_name]['key'] = encrypted_cols[col['name']]['key']
+        if encrypted_cols[col['name']].get('arithmetic'):
+            columns_kv[col_name]['homomorphic_key'] = encrypted_cols[col['name']].get('homomorphic_key', "")
+        if encrypted_cols[col['name']].get('sm4'):
+            columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
+        columns_kv[col_name]['plaintext'] = False
         val = element_type.get(list(col_type.keys())[0].upper())
         for k, v in val.items():
             primary_key_plus = primary_key if k == 'symmetric' else ''
@@ -68,64 +68,28 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
                     enc_col_type = v
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    key = encrypted_cols[col['name']]['key']
-                    default_value = ' DEFAULT ' + encrypt.AESCipher(key).encrypt(default_value)
-                else:
-                    default_value = ''
+                default_value = get_default(col, columns_kv, k)
                 enc_columns.append(enc_col_name + ' ' + enc_col_type + is_nullable + primary_key_plus + default_value)
                 columns_kv[col_name]['enc-cols'].update({k: enc_col_name})
         if encrypted_cols[col['name']]['fuzzy']:
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, columns_kv, 'fuzzy')
             enc_columns.append(enc_col_name + ' ' + fuzzy_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"fuzzy": enc_col_name})
         if encrypted_cols[col['name']].get('arithmetic'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('homomorphic_key', "")
-                default_value = ' DEFAULT ' + encrypt.HomomorphicCipher(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, columns_kv, 'arithmetic')
             enc_columns.append(enc_col_name + ' ' + arithmetic_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"arithmetic": enc_col_name})
-            columns_kv[col_name]['homomorphic_key'] = encrypted_cols[col['name']].get('homomorphic_key', "")
         if encrypted_cols[col['name']].get('sm4'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4_key', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, columns_kv, 'sm4')
             enc_columns.append(enc_col_name + ' ' + sm4_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"sm4": enc_col_name})
-            columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
 
-        columns_kv[col_name]['key'] = encrypted_cols[col['name']]['key']
-        columns_kv[col_name]['plaintext'] = False
     anonymous_table = "table_" + hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
     enc_constraint = []
     constraints = create_table.get('constraint', [])
@@ -152,6 +116,13 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     return query, {'table': table_name}
 
 
+def get_default(col, columns_kv, enc):
+    if 'default' not in col:
+        return ''
+    values = SQLValues({col['name']: {'columns': columns_kv}})
+    return ' DEFAULT ' + format(values.encrypt_value(col['name'], col['name'], col['default'], enc)['value'])
+
+
 def get_enc_columns(columns, columns_info, cipher='symmetric'):
     if not isinstance(columns, list):
         columns = [columns]
-- 
2.43.0


From 213bed330216fedb9442a8b4f6a3ee0fb16da283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 019/104] fix: fill the sm4 column of an encrypted column

---
 scheduler/handers/clause/sql_values.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 1bcc52c..8a1447a 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -43,6 +43,9 @@ class SQLValues(Rewriter):
             return {'value': {'literal': encrypt.AESCipher(key).encrypt(str(value))}}
         if enc == "fuzzy":
             return {'value': {'literal': encrypt.FuzzyCipher(key).encrypt(str(value))}}
+        if enc == "sm4":
+            sm4_key = self.db_meta[table]['columns'][col]['sm4_key']
+            return {'value': {'literal': encrypt.SM4CipherBytes(sm4_key).encrypt(str(value))}}
         if enc == "arithmetic":
             homomorphic_key = self.db_meta[table]['columns'][col]['homomorphic_key']
             return {'value': {'literal': encrypt.HomomorphicCipher(homomorphic_key).encrypt(int(value))}}
-- 
2.43.0


From c07b2dbe6ee9824ebc9c5c7ba103f01e4c0d2f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 020/104] fix: keep IF EXISTS of a DROP TABLE

---
 scheduler/handers/clause/sql_drop.py | 2 +-
 sql_parsing/formatting.py            | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_drop.py b/scheduler/handers/clause/sql_drop.py
index 00b842f..a8a3a41 100644
--- a/scheduler/handers/clause/sql_drop.py
+++ b/scheduler/handers/clause/sql_drop.py
@@ -8,5 +8,5 @@ class SQLDrop(Rewriter):
     def rewrite(self, columns, table, json=None):
         result = {}
         for key, value in columns.items():
-            result[key] = self.db_meta[value]['anonymous']
+            result[key] = self.db_meta[value]['anonymous'] if key == 'table' else value
         return result
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index d5c8d7f..3fc0f5c 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -634,6 +634,8 @@ class Formatter:
         values = json['drop']
         if 'table' in values:
             acc.append("TABLE")
+            if values.get('if_exists'):
+                acc.append("IF EXISTS")
             acc.append(values['table'])
         return " ".join(acc)
 
-- 
2.43.0


From 85afe0a25aeb46c08438c500ca7dedb95d80b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 021/104] fix: quote identifiers for MySQL, a double-quoted one
 is a string there

---
 scheduler/handers/clause/sql_where.py | 13 +------------
 scheduler/handers/rewrite_hander.py   |  2 +-
 scheduler/handers/table.py            |  3 ++-
 scheduler/schema/metadata.py          |  2 +-
 sql_parsing/formatting.py             |  8 ++++----
 5 files changed, 9 insertions(+), 19 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index cd8d709..d256836 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -85,18 +85,7 @@ class SQLWhere(Rewriter):
             return where_value
         if isinstance(where_value, int):
             if cipher == 'fuzzy':
-                partial_list = str(where_value).split("%")
-                result = []
-                for partial in partial_list:
-                    if partial == "":
-                        result.append("")
-                        continue
-                    else:
-                        if len(str(partial)) < 3:
-                            raise Exception("The length of fuzzy search word {} is {} <3"
-                                            .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(str(partial)))
-                return "%".join(result)
+                return {'literal': self.rewrite(str(where_value), table, cipher=cipher, key=key)}
             if cipher == 'symmetric':
                 return encrypt.AESCipher(key).encrypt(str(where_value))
             if cipher == 'order-preserving':
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index ef94ca8..675ac81 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -76,7 +76,7 @@ class Rewriter(Clause):
         Delta.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
-        return format(json), table
+        return format(json, ansi_quotes=False), table
 
     def normalize_insert(self, json):
         """
diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 1bb7a6f..e4abd38 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -45,7 +45,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                 else:
                     enc_col_type = t_k + unsigned
                 default_value = ' DEFAULT ' + format(col['default']) if 'default' in col else ''
-                enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
+                enc_columns.append(format(col_name, ansi_quotes=False) + ' ' + enc_col_type + is_nullable + primary_key
+                                   + default_value)
                 columns_kv[col_name]['plaintext'] = True
                 columns_kv[col_name]['type'] = t_k
                 columns_kv[col_name]['key'] = ""
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index ebd5861..0820eac 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -236,7 +236,7 @@ class Delta(object):
         need_paillier_procedure = len(sum_feature_name_list) + len(avg_feature_name_list)
         table_name = None
         if need_paillier_procedure:
-            enc_query = format(json)
+            enc_query = format(json, ansi_quotes=False)
             table_name = enc_query[re.search('FROM ', enc_query).span()[1]:]
         return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query
 
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 3fc0f5c..f124bc2 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -509,11 +509,11 @@ class Formatter:
             return f"SELECT {param}"
 
     def delete(self, json, prec):
-        param = "FROM " + json['delete']
+        param = "FROM " + self.dispatch(json['delete'])
         return f"DELETE {param}"
 
     def update(self, json, prec):
-        param = json['update']
+        param = self.dispatch(json['update'])
         return f"UPDATE {param}"
 
     def set(self, json, prec):
@@ -587,7 +587,7 @@ class Formatter:
             acc.append("OVERWRITE")
         else:
             acc.append("INTO")
-        acc.append(json["insert"])
+        acc.append(self.dispatch(json["insert"]))
 
         if "columns" in json:
             acc.append(self.sql_list(listwrap(json["columns"])))
@@ -636,7 +636,7 @@ class Formatter:
             acc.append("TABLE")
             if values.get('if_exists'):
                 acc.append("IF EXISTS")
-            acc.append(values['table'])
+            acc.append(self.dispatch(values['table']))
         return " ".join(acc)
 
 
-- 
2.43.0


From ba60de88f4eb3a6906f6737a9a43b21afdd2fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 022/104] fix: give every converted query an id of its own

---
 scheduler/backend/execution_context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index c194c5c..0d85c83 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -4,9 +4,11 @@ from scheduler.backend.executors import DecryptQueryExecutor
 from scheduler.compile.parser import Parser
 from scheduler.handers.decrypt_handler import DecryptHandler
 
+import itertools
 import time
 
 id_sql_map = {}
+query_ids = itertools.count(int(round(time.time() * 1000)))
 
 
 def invoke(query_info, query_sql, encrypted_cols=None, columns_info=False):
@@ -52,8 +54,7 @@ def encrypt_sql2(db, sql):
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
     select_state = executor.rewriter.select.select_state
-    curr_id = lambda: int(round(time.time() * 1000))
-    curr_id = str(curr_id())
+    curr_id = str(next(query_ids))
     id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
     return enc_query, table, curr_id
 
-- 
2.43.0


From bd81691cbb2d90ae20803814fa5aabb68ca1076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 023/104] fix: decrypt rows holding NULL or a number with
 /decrypt_data

---
 scheduler/handers/decrypt_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index 2f3d2c5..b01546c 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -46,7 +46,7 @@ class DecryptHandler(Handler):
             new_row = []
             # row1 = row.split(",")
             for col_name, state, col_val in zip(select_columns, select_state, row):
-                print("密文解密：" + col_val)
+                print("密文解密：" + str(col_val))
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
                         col_val = eval(col_val.__str__())
-- 
2.43.0


From 16439a53da945a24e02235f984858ea5aaffca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 024/104] fix: compute a homomorphic sum from its own request,
 not from the last one rewritten

---
 scheduler/backend/executors/remote_executor.py | 2 +-
 scheduler/handers/rewrite_hander.py            | 7 +++----
 scheduler/schema/metadata.py                   | 7 +++----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index fc4b483..9c29d8b 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -191,7 +191,7 @@ class RemoteExecutor(AbstractQueryExecutor):
         if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
             return enc_query
         sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table)
+            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json)
         if not need_paillier_procedure:
             return enc_query
         for feature in set(sum_feature_name_list+avg_feature_name_list):
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 675ac81..851480e 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -8,13 +8,12 @@ from scheduler.handers.clause.sql_clause import Clause
 from scheduler.handers.clause import clause
 from scheduler.handers.clause import table_key
 
-from scheduler.schema.metadata import Delta
-
 
 class Rewriter(Clause):
     def __init__(self, db, encrypted_cols=None):
         super().__init__(db, encrypted_cols)
         self.limit = float('-inf')
+        self.table_json = None
 
     def rewrite_query(self, query):
         """
@@ -72,8 +71,8 @@ class Rewriter(Clause):
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
-        # record json in Delta
-        Delta.table_json = json
+        # record json, the homomorphic sums are computed from it
+        self.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json, ansi_quotes=False), table
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0820eac..e69f627 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -96,7 +96,6 @@ FUNC_CIPHERS = {
 class Delta(object):
     __instance = None
     meta = None
-    table_json = None
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
@@ -207,11 +206,11 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name):
+    def get_paillier_procedure_info(cls, enc_query, db, table_name, table_json=None):
         sum_feature_name_list = []
         avg_feature_name_list = []
-        if cls.table_json:
-            json = deepcopy(cls.table_json)
+        if table_json:
+            json = deepcopy(table_json)
         else:
             json = parse(enc_query)
         json.pop('limit', None)
-- 
2.43.0


From 374119e3a88eb368ba6055c662307cde6e68d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 025/104] fix: count encrypted columns, qualify columns with
 the stored table, refuse functions and constants the select list cannot hold

---
 scheduler/handers/clause/sql_select.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index 2c02b82..188f1ca 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -76,7 +76,7 @@ class SQLSelect(Rewriter):
                 if isinstance(table, str):  # which means table is true table name or some nest table without join
                     t_name, select_val = select_val.split('.') if '.' in select_val else ('',  select_val)
                     col = self.db_meta[table]['columns'][select_val]
-                    t_name = t_name + '.' if t_name else ''
+                    t_name = self.db_meta[table]['anonymous'] + '.' if t_name else ''
                     self.select_types.append(col['type'])
                     if col['plaintext']:
                         self.select_state.append("plaintext")
@@ -105,6 +105,8 @@ class SQLSelect(Rewriter):
             for k, v in select_val.items():
                 if k in FUNC_CIPHERS.keys():
                     result[k] = self.rewrite(v, table, FUNC_CIPHERS[k])
+                elif k == 'count':
+                    result[k] = self.rewrite_count(v, table)
                 elif k == 'add':
                     v0, v1 = self.rewrite(v[0], table), self.rewrite(v[1], table)
                     cipher_text = self.select_state.pop()
@@ -131,5 +133,19 @@ class SQLSelect(Rewriter):
                         p = (p1[0] * p1[0]) ** 2
                         result['mod'] = [{'mul': [v0, v1]}, p]
                 else:
-                    result[k] = self.rewrite(v, table)
+                    n = len(self.select_state)
+                    result[k] = self.rewrite(v, table, cipher)
+                    if k not in ['value', 'distinct'] and any(s != "plaintext" for s in self.select_state[n:]):
+                        raise Exception("Not support {} of an encrypted column".format(k))
             return result
+        raise Exception("Not support {} in the list of selected columns".format(select_val))
+
+    def rewrite_count(self, count_val, table):
+        n = len(self.select_state)
+        if isinstance(count_val, (str, dict)):
+            count_val = self.rewrite(count_val, table)
+        # the number of ciphertexts is a plaintext
+        self.select_columns[n:] = self.select_columns[n:n + 1] or ["count"]
+        self.select_types[n:] = ["int"]
+        self.select_state[n:] = ["plaintext"]
+        return count_val
-- 
2.43.0


From 8293e656f84be0ae8ad9f03c5348bacecd6eea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 026/104] fix: refuse GROUP BY, HAVING, SET and subselects
 naming encrypted columns before they reach the database

---
 scheduler/handers/clause/sql_set.py   | 3 +++
 scheduler/handers/clause/sql_where.py | 5 ++++-
 scheduler/handers/rewrite_hander.py   | 8 ++++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index 6e7e810..b464e82 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,4 +1,5 @@
 from scheduler.handers.clause.sql_values import SQLValues
+from scheduler.handers.clause.sql_where import SQLWhere
 from scheduler.handers.clause.rewriter import Rewriter
 
 
@@ -6,12 +7,14 @@ class SQLSet(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
         self.values = SQLValues(db_meta)
+        self.where = SQLWhere(db_meta)
 
     def rewrite(self, set_value, table, json=None):
         result = {}
         enc_table_meta = self.db_meta[table]
         for k, v in set_value.items():
             if enc_table_meta['columns'][k]['plaintext']:
+                self.where.check_plaintext(v, table)
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index d256836..c43f901 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -5,6 +5,7 @@ from scheduler.crypto import encrypt
 from scheduler.utils.keywords import Logical_Operation
 from scheduler.handers.clause.rewriter import Rewriter
 from scheduler.handers.clause.sql_values import SQLValues
+from scheduler.handers.clause.utils import get_nest_table
 
 
 class SQLWhere(Rewriter):
@@ -21,13 +22,15 @@ class SQLWhere(Rewriter):
         """
         if isinstance(condition, str):
             for name in table if isinstance(table, list) else [table]:
-                columns = self.db_meta[name]['columns'] if isinstance(name, str) else {}
+                columns = self.db_meta[get_nest_table(name) if isinstance(name, dict) else name]['columns']
                 if not columns.get(condition.split('.')[-1], {'plaintext': True})['plaintext']:
                     raise Exception("Not support this condition on encrypted column {}".format(condition))
         elif isinstance(condition, list):
             for c in condition:
                 self.check_plaintext(c, table)
         elif isinstance(condition, dict) and 'literal' not in condition:
+            if 'from' in condition:
+                raise Exception("Not support a select in a condition or value")
             for c in condition.values():
                 self.check_plaintext(c, table)
 
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 851480e..e02c663 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -47,6 +47,10 @@ class Rewriter(Clause):
             else:
                 return func[inner_key].rewrite(inner_json, table, json=source_json)
 
+        for key in ['groupby', 'having']:
+            if key in json.keys():
+                self.where.check_plaintext(json[key], table)
+
         for key in clause.keys():
             if key not in json.keys():
                 continue
@@ -112,6 +116,10 @@ class Rewriter(Clause):
             else:
                 return func[inner_key].rewrite(inner_json, table, json=source_json)
 
+        for key in ['groupby', 'having']:
+            if key in json.keys():
+                self.where.check_plaintext(json[key], table)
+
         for key in clause.keys():
             if key not in json.keys():
                 continue
-- 
2.43.0


From 7cb16ee675e7fa21e3da0815755c51fdea709660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 027/104] fix: read quotes, backslashes and line breaks in
 string literals and identifiers as MySQL does

---
 parsing/utils.py          |  2 +-
 sql_parsing/formatting.py |  2 +-
 sql_parsing/utils.py      | 45 ++++++++++++++++++++++++---------------
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/parsing/utils.py b/parsing/utils.py
index 228a9c8..ee43446 100644
--- a/parsing/utils.py
+++ b/parsing/utils.py
@@ -46,7 +46,7 @@ except Exception:
 
         @classmethod
         def error(cls, template, cause=None, **params):
-            raise ParseException(Null, -1, -1, "", msg=template, cause=cause)
+            raise ParseException(Null, -1, "", msg=template, cause=cause)
 
 
 MAX_INT = sys.maxsize
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index f124bc2..8074c35 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -373,7 +373,7 @@ class Formatter:
                 self._literal(v, precedence["literal"]) for v in json
             ))
         elif isinstance(json, string_types):
-            return "'{0}'".format(json.replace("'", "''"))
+            return "'{0}'".format(json.replace("\\", "\\\\").replace("'", "''"))
         elif isinstance(json, dict) and "literal" in json:
             return self._literal(json["literal"])
         else:
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 78640a0..67457f0 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -7,7 +7,7 @@
 # Contact: Kyle Lahnakoski (kyle@lahnakoski.com)
 #
 
-import ast
+import re
 
 from dots import is_data, is_null, Data, from_data
 from parsing_future import text, number_types, binary_type, flatten
@@ -566,26 +566,37 @@ def to_table(tokens):
         return output["value"]
 
 
+STRING_ESCAPES = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "0": "\0", "Z": "\x1a"}
+
+
+def unescape(match):
+    """
+    RETURN THE CHARACTERS MEANT BY ONE QUOTE PAIR, OR ONE BACKSLASH ESCAPE
+    """
+    val = match.group(0)
+    if not val.startswith("\\"):
+        return val[0]
+    elif val[1] in "%_":
+        # KEEP FOR LIKE
+        return val
+    return STRING_ESCAPES.get(val[1], val[1])
+
+
 def unquote(tokens):
     val = tokens[0]
-    if val.startswith("'") and val.endswith("'"):
-        val = "'" + val[1:-1].replace("''", "\\'") + "'"
-    elif val.startswith('"') and val.endswith('"'):
-        val = '"' + val[1:-1].replace('""', '\\"') + '"'
-    elif val.startswith("`") and val.endswith("`"):
-        val = '"' + val[1:-1].replace("``", "`").replace('"', '\\"') + '"'
-    elif val.startswith("[") and val.endswith("]"):
-        val = '"' + val[1:-1].replace("]]", "]").replace('"', '\\"') + '"'
-    elif val.startswith("+"):
-        val = val[1:]
-    un = ast.literal_eval(val).replace(".", "\\.")
-    return un
+    for begin, end in ("''", '""', "``", "[]"):
+        if val.startswith(begin) and val.endswith(end):
+            val = val[1:-1].replace(end + end, end)
+            break
+    return val.replace(".", "\\.")
 
 
 def to_string(tokens):
     val = tokens[0]
-    val = "'" + val[1:-1].replace("''", "\\'") + "'"
-    return {"literal": ast.literal_eval(val)}
+    quote = val[0]
+    return {"literal": re.sub(
+        quote + quote + r"|\\[\s\S]", unescape, val[1:-1]
+    )}
 
 
 # NUMBERS
@@ -608,8 +619,8 @@ hex_num = (
 )
 
 # STRINGS
-ansi_string = Regex(r"\'(\'\'|[^'])*\'") / to_string
-mysql_doublequote_string = Regex(r'\"(\"\"|[^"])*\"') / to_string
+ansi_string = Regex(r"\'(\'\'|\\[\s\S]|[^'\\])*\'") / to_string
+mysql_doublequote_string = Regex(r'\"(\"\"|\\[\s\S]|[^"\\])*\"') / to_string
 
 # BASIC IDENTIFIERS
 ansi_ident = Regex(r'\"(\"\"|[^"])*\"') / unquote
-- 
2.43.0


From 305ee71418fe49280dca62e2344c27930dffafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 028/104] fix: rewrite the columns and the referenced table of
 ALTER TABLE ADD keys and indexes

---
 scheduler/handers/clause/__init__.py        | 10 +++++++---
 scheduler/handers/clause/anonymous_table.py |  2 +-
 scheduler/handers/clause/sql_keys.py        | 22 +++++++++++++++++++++
 sql_parsing/__init__.py                     |  6 +++---
 4 files changed, 33 insertions(+), 7 deletions(-)
 create mode 100644 scheduler/handers/clause/sql_keys.py

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index 3fc0049..02cca75 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -7,6 +7,7 @@ from scheduler.handers.clause.function import OrderBy
 from scheduler.handers.clause.sql_columns import SQLColumns
 from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.sql_drop import SQLDrop
+from scheduler.handers.clause.sql_keys import SQLKeys, SQLReferenceKeys
 
 clause = {
     'insert': AnonymousTable,
@@ -23,9 +24,12 @@ clause = {
     'query': SQLValues,
     'alter': AnonymousTable,
     'reference_table': AnonymousTable,
-    'add primary key': SQLSelect,
-    'add foreign key': SQLSelect,
-    'reference_feature': SQLSelect
+    'add primary key': SQLKeys,
+    'add foreign key': SQLKeys,
+    'add index feature': SQLKeys,
+    'add unique feature': SQLKeys,
+    'add fulltext feature': SQLKeys,
+    'reference_feature': SQLReferenceKeys
 }
 
 table_key = [
diff --git a/scheduler/handers/clause/anonymous_table.py b/scheduler/handers/clause/anonymous_table.py
index 1978c1f..0ccdcd6 100644
--- a/scheduler/handers/clause/anonymous_table.py
+++ b/scheduler/handers/clause/anonymous_table.py
@@ -6,4 +6,4 @@ class AnonymousTable(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, value, table, json=None):
-        return self.db_meta[table]['anonymous']
+        return self.db_meta[value]['anonymous']
diff --git a/scheduler/handers/clause/sql_keys.py b/scheduler/handers/clause/sql_keys.py
new file mode 100644
index 0000000..3da54b6
--- /dev/null
+++ b/scheduler/handers/clause/sql_keys.py
@@ -0,0 +1,22 @@
+from scheduler.handers.clause.rewriter import Rewriter
+
+
+class SQLKeys(Rewriter):
+    """
+    columns of a key or index, the stored column comparing for equality stands for an encrypted one
+    """
+    def __init__(self, db_meta):
+        super().__init__(db_meta)
+
+    def rewrite(self, columns, table, json=None):
+        columns_info = self.db_meta[table]['columns']
+        result = []
+        for column in columns:
+            info = columns_info[column['value']]
+            result.append({'value': column['value'] if info['plaintext'] else info['enc-cols']['symmetric']})
+        return result
+
+
+class SQLReferenceKeys(SQLKeys):
+    def rewrite(self, columns, table, json=None):
+        return super().rewrite(columns, json['reference_table'])
diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 919d09c..3619b1a 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -211,13 +211,13 @@ def format_alter_key(json):
                f"({','.join([i['value'] for i in json['reference_feature']])});"
     if json.get('drop foreign key'):
         return f"alter table {json['alter']} drop foreign key {json['drop foreign key']};"
-    if json.get('add index'):
+    if 'add index' in json:
         return f"alter table {json['alter']} " \
                f"add index {json['add index']}({','.join([i['value'] for i in json['add index feature']])});"
-    if json.get('add unique'):
+    if 'add unique' in json:
         return f"alter table {json['alter']} " \
                f"add unique {json['add unique']}({','.join([i['value'] for i in json['add unique feature']])});"
-    if json.get('add fulltext'):
+    if 'add fulltext' in json:
         return f"alter table {json['alter']} " \
                f"add fulltext {json['add fulltext']}({','.join([i['value'] for i in json['add fulltext feature']])});"
     if json.get('drop index'):
-- 
2.43.0


From 554875a15986dc25d09667c9e181adb4cd68a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 029/104] fix: sum and average encrypted columns over NULLs,
 empty selections and one connection, refuse SUM(DISTINCT) and groups

---
 .../backend/executors/remote_executor.py      |  7 ++---
 scheduler/handers/clause/sql_select.py        |  2 ++
 scheduler/schema/metadata.py                  | 30 +++++++++----------
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 9c29d8b..81e4a71 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -194,17 +194,16 @@ class RemoteExecutor(AbstractQueryExecutor):
             Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json)
         if not need_paillier_procedure:
             return enc_query
+        # the sums are kept in variables of this connection, do not go on with another one
+        self.conn.begin()
         for feature in set(sum_feature_name_list+avg_feature_name_list):
             Delta.set_sum_feature(self.conn.cursor(), feature, table_name)
-        if avg_feature_name_list:
-            Delta.set_total_feature_num(self.conn.cursor(), table_name)
         for feature in sum_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
             enc_query = Delta.modify_sum_query(enc_query, feature[0], use_cursor)
         for feature in avg_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
-            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor, 'TotalFeature')
-        enc_query = enc_query + ' limit 1'
+            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor)
         return enc_query
 
     def get_db_meta(self):
diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index 188f1ca..d862c90 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -105,6 +105,8 @@ class SQLSelect(Rewriter):
             for k, v in select_val.items():
                 if k in FUNC_CIPHERS.keys():
                     result[k] = self.rewrite(v, table, FUNC_CIPHERS[k])
+                    if self.select_state[-1] == 'arithmetic' and (not isinstance(v, str) or len(select_val) > 1):
+                        raise Exception("Not support {} of {}".format(k, v))
                 elif k == 'count':
                     result[k] = self.rewrite_count(v, table)
                 elif k == 'add':
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index e69f627..f7ac333 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -174,16 +174,13 @@ class Delta(object):
         new_feature_name = feature_name.replace('.', '_')
         cursor.execute('SET @rownr=0;')
         cursor.execute('SET @sum=1;')
-        sum_sql = 'select sum from (select @rownr:=@rownr+1, @sum:=(@sum*{})%{} as sum from {} ' \
+        # like SUM and AVG, pass over NULLs
+        cursor.execute(f'SET @num{new_feature_name} = (select count({feature_name}) from {table_name});')
+        sum_sql = 'select sum from (select @rownr:=@rownr+1, @sum:=(@sum*coalesce({},1))%{} as sum from {} ' \
                   'order by @rownr desc limit 1) tmp'.format(feature_name, n_square, table_name)
-        set_sql = f'set @sum{new_feature_name} = ({sum_sql})'
+        set_sql = f'set @sum{new_feature_name} = if(@num{new_feature_name} = 0, null, ({sum_sql}))'
         cursor.execute(set_sql)
 
-    @staticmethod
-    def set_total_feature_num(cursor, table_name):
-        cursor.execute(f'SET @numTotalFeature = (select count(*) from {table_name});')
-
-
     @staticmethod
     def create_paillier_sum_procedure(cursor, feature, table_name, use_cursor):
         if not use_cursor:
@@ -213,7 +210,6 @@ class Delta(object):
             json = deepcopy(table_json)
         else:
             json = parse(enc_query)
-        json.pop('limit', None)
         json_select = json['select']
         if not isinstance(json_select, list):
             json_select = [json_select['value']]
@@ -235,8 +231,12 @@ class Delta(object):
         need_paillier_procedure = len(sum_feature_name_list) + len(avg_feature_name_list)
         table_name = None
         if need_paillier_procedure:
-            enc_query = format(json, ansi_quotes=False)
-            table_name = enc_query[re.search('FROM ', enc_query).span()[1]:]
+            if 'groupby' in json or 'having' in json:
+                raise Exception("Not support sum and avg of encrypted columns in groups")
+            for key in ['limit', 'offset', 'orderby']:
+                json.pop(key, None)
+            rows_query = format(json, ansi_quotes=False)
+            table_name = rows_query[re.search('FROM ', rows_query).span()[1]:]
         return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query
 
     @staticmethod
@@ -244,13 +244,13 @@ class Delta(object):
         new_feature_name = feature_name.replace('.', '_')
         if not use_cursor:
             return enc_query.replace('SUM({})'.format(feature_name), "CONCAT(GROUP_CONCAT({}), ',SUM')".format(new_feature_name))
-        return enc_query.replace('SUM({})'.format(feature_name), '@sum{}'.format(new_feature_name))
+        # still an aggregate, it gives one row whatever rows there are
+        return enc_query.replace('SUM({})'.format(feature_name), 'MAX(@sum{})'.format(new_feature_name))
 
     @staticmethod
-    def modify_avg_query(enc_query, feature_name, use_cursor, total_feature=None):
+    def modify_avg_query(enc_query, feature_name, use_cursor):
         new_feature_name = feature_name.replace('.', '_')
         if not use_cursor:
             return enc_query.replace('AVG({})'.format(feature_name), "CONCAT(GROUP_CONCAT({}), ',AVG')".format(new_feature_name))
-        num_feature_name = 'TotalFeature' if not total_feature else total_feature
-        return enc_query.replace('AVG({})'.format(feature_name), "concat(@sum{}, ',',@num{})".format(new_feature_name,
-                                                                                                     num_feature_name))
+        return enc_query.replace('AVG({})'.format(feature_name), "concat(MAX(@sum{}), ',',MAX(@num{}))".format(
+            new_feature_name, new_feature_name))
-- 
2.43.0


From bc73aca2b289369ddf0db9093f321406aab712e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 030/104] fix: replace left-over metadata of a table, write it
 before using it, and pass names as parameters

---
 scheduler/schema/metadata.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index f7ac333..c1b6ab1 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -22,9 +22,11 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
               port=int(config['meta']['mysql']["port"])
             )
         insert_sql = 'insert into p_db_meta values(%s,%s,%s,%s,%s,%s)'
+        delete_sql = 'delete from p_db_meta where database_name = %s and table_name = %s'
     else:
         db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
         insert_sql = 'insert into p_db_meta values (?,?,?,?,?,?)'
+        delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'
 
 
 def test_connection(_db_conn):
@@ -106,6 +108,8 @@ class Delta(object):
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
+        # update database meta
+        self.update_db_meta(db_name, table_meta)
         if self.meta:
             if db_name not in self.meta.keys():
                 self.meta.update({db_name: table_meta})
@@ -116,24 +120,13 @@ class Delta(object):
             Delta.meta = {
                 db_name: table_meta
             }
-        # update database meta
-        self.update_db_meta(db_name, table_meta)
         return self.meta
 
     def delete_delta(self, db, table):
         self.meta[db].pop(table, None)
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
-        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
-        cu.execute(sql)
-        if config['meta']['type'] == 'mysql':
-            self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        self.write_db_meta(db, [table], [])
 
     def update_db_meta(self, db_name, table_meta):
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
         rows = []
         for t_name, t_value in table_meta.items():
             table_name = t_name
@@ -141,11 +134,21 @@ class Delta(object):
             for key, value in t_value['columns'].items():
                 col_str = json.dumps({key: value})
                 rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
-        cu.executemany(insert_sql, rows)
-        if config['meta']['type'] == 'mysql':
+        # rows left over from an earlier table of this name must not mix with the new ones
+        self.write_db_meta(db_name, table_meta, rows)
+
+    def write_db_meta(self, db_name, old_tables, rows):
+        self.db_conn = test_connection(self.db_conn)
+        cu = self.db_conn.cursor()
+        try:
+            for table in old_tables:
+                cu.execute(delete_sql, (db_name, table))
+            if rows:
+                cu.executemany(insert_sql, rows)
             self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        except Exception:
+            self.db_conn.rollback()
+            raise
 
     @classmethod
     def load_delta(cls):
-- 
2.43.0


From 5f983556dd56c9bf527306fb8f389e40cd317a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 031/104] fix: load the metadata once and completely, also over
 a connection lost while idle

---
 scheduler/schema/metadata.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index c1b6ab1..85e1e27 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -2,6 +2,7 @@ import re
 import json
 import yaml
 import sqlite3
+import threading
 from copy import deepcopy
 
 from sql_parsing import parse_mysql as parse
@@ -95,6 +96,9 @@ FUNC_CIPHERS = {
 }
 
 
+lock = threading.RLock()
+
+
 class Delta(object):
     __instance = None
     meta = None
@@ -102,9 +106,12 @@ class Delta(object):
 
     def __new__(cls, *args, **kwargs):
         if Delta.__instance is None:
-            Delta.__instance = object.__new__(cls, *args, **kwargs)
-            cls.db_conn = db_conn
-            cls.meta = cls.load_delta()
+            with lock:
+                if Delta.__instance is None:
+                    # no instance before its metadata is complete
+                    cls.db_conn = test_connection(db_conn)
+                    cls.meta = cls.load_delta()
+                    Delta.__instance = object.__new__(cls, *args, **kwargs)
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-- 
2.43.0


From 6867a5faed8273b488d3e9d3ab0676acaba19cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:11 +0000
Subject: [PATCH 032/104] fix: parse prefix operators after binary ones, and
 keep the grouping of every operator when formatting

---
 parsing/infix.py          | 15 +++++++++++--
 sql_parsing/formatting.py | 44 ++++++++++++++++++++++++++++-----------
 sql_parsing/keywords.py   | 21 ++++++++++---------
 3 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/parsing/infix.py b/parsing/infix.py
index 7e9d8e8..5724213 100644
--- a/parsing/infix.py
+++ b/parsing/infix.py
@@ -14,6 +14,7 @@ from parsing.enhancement import (
     Suppress,
     ZeroOrMore,
 )
+from parsing.exceptions import ParseException
 from parsing.expressions import MatchFirst, Or
 from parsing.results import ParseResults, NO_PARSER
 from parsing.tokens import (
@@ -255,6 +256,11 @@ def infix_notation(
         )
     ])
 
+    def is_operand(flat_token):
+        # AN OPERATOR STILL WAITING FOR ITS OPERAND IS NOT AN OPERAND
+        o = flat_token[1]
+        return o is base_expr or isinstance(o, tuple)
+
     def make_tree(tokens, loc, string):
         flat_tokens = list(tokens)
         num = len(op_list)
@@ -266,7 +272,7 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == op and is_operand(flat_tokens[i + 1]):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -304,7 +310,7 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op:
+                    if o == op and is_operand(flat_tokens[i + 2]):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -360,6 +366,11 @@ def infix_notation(
             flat_tokens[i : i + offset] = [(result, (expr,))]
             op_index = 0
 
+        if len(flat_tokens) > 1:
+            raise ParseException(
+                tokens.type, loc, string, "Operator is missing an operand"
+            )
+
         result = flat_tokens[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 8074c35..84dc83f 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -63,6 +63,16 @@ def escape(ident, ansi_quotes, should_quote):
     return ".".join(esc(f) for f in split_field(ident))
 
 
+def tighter(prec):
+    """
+    RETURN PRECEDENCE FOR OPERANDS THAT NEED PARENTHESIS AROUND OPERATORS OF prec
+    """
+    if prec == precedence["like"]:
+        # PREDICATES ONLY ACCEPT ARITHMETIC
+        return precedence["binary_or"]
+    return prec - 0.1
+
+
 def Operator(_op):
     op_prec = precedence[binary_ops[_op]]
     op = " {0} ".format(_op).replace("_", " ").upper()
@@ -76,10 +86,11 @@ def Operator(_op):
             json = [k, {"literal": v}]
 
         for i, v in enumerate(listwrap(json)):
-            if i == 0:
-                acc.append(self.dispatch(v, op_prec + 0.25))
-            else:
+            if i == 0 and op_prec != precedence["like"]:
                 acc.append(self.dispatch(v, op_prec))
+            else:
+                # LEFT ASSOCIATIVE, OR NOT ASSOCIATIVE AT ALL
+                acc.append(self.dispatch(v, tighter(op_prec)))
         if prec >= op_prec:
             return op.join(acc)
         else:
@@ -292,13 +303,22 @@ class Formatter:
             return f"{key.upper()}({params})"
 
     def _binary_not(self, value, prec):
-        return "~{0}".format(self.dispatch(value))
+        return "~{0}".format(self.dispatch(value, prec))
+
+    def _neg(self, value, prec):
+        sql = self.dispatch(value, prec)
+        if sql[0] in "+-.0123456789":
+            sql = f"({sql})"
+        return f"-{sql}"
+
+    def _not(self, value, prec):
+        return "NOT({0})".format(self.dispatch(value))
 
     def _exists(self, value, prec):
-        return "{0} IS NOT NULL".format(self.dispatch(value, precedence["is"]))
+        return "{0} IS NOT NULL".format(self.dispatch(value, tighter(prec)))
 
     def _missing(self, value, prec):
-        return "{0} IS NULL".format(self.dispatch(value, precedence["is"]))
+        return "{0} IS NULL".format(self.dispatch(value, tighter(prec)))
 
     def _collate(self, pair, prec):
         return "{0} COLLATE {1}".format(
@@ -387,9 +407,9 @@ class Formatter:
 
     def _between(self, json, prec):
         return "{0} BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], tighter(prec)),
+            self.dispatch(json[1], tighter(prec)),
+            self.dispatch(json[2], tighter(prec)),
         )
 
     def _trim(self, json, prec):
@@ -411,9 +431,9 @@ class Formatter:
 
     def _not_between(self, json, prec):
         return "{0} NOT BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], tighter(prec)),
+            self.dispatch(json[1], tighter(prec)),
+            self.dispatch(json[2], tighter(prec)),
         )
 
     def _distinct(self, json, prec):
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 9f4eaff..dd96f35 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -245,36 +245,37 @@ precedence = {
     "interval": 0,
     "cast": 0,
     "collate": 0,
+    "neg": 0.5,
+    "binary_not": 0.5,
     "concat": 1,
     "mul": 2,
-    "div": 1.5,
+    "div": 2,
     "mod": 2,
-    "neg": 3,
     "add": 3,
-    "sub": 2.5,
-    "binary_not": 4,
+    "sub": 3,
     "binary_and": 4,
-    "binary_or": 4,
+    "binary_or": 4.5,
     "gte": 5,
     "lte": 5,
     "lt": 5,
-    "gt": 6,
+    "gt": 5,
     "eq": 7,
     "neq": 7,
-    "missing": 7,
-    "exists": 7,
     "at_time_zone": 8,
     "between": 8,
     "not_between": 8,
     "in": 8,
     "nin": 8,
     "is": 8,
+    "missing": 8,
+    "exists": 8,
     "like": 8,
     "not_like": 8,
     "rlike": 8,
     "not_rlike": 8,
     "similar_to": 8,
     "not_similar_to": 8,
+    "not": 9,
     "and": 10,
     "or": 11,
     "lambda": 12,
@@ -293,11 +294,11 @@ precedence = {
 
 KNOWN_OPS = [
     COLLATE,
+    NEG,
+    BINARY_NOT,
     CONCAT,
     MUL | DIV | MOD,
-    NEG,
     ADD | SUB,
-    BINARY_NOT,
     BINARY_AND,
     BINARY_OR,
     GTE | LTE | LT | GT,
-- 
2.43.0


From 090e86665a7d0df79ff69391aa92db54d92c84fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:30 +0000
Subject: [PATCH 033/104] fix: format subqueries, EXISTS, IN lists, USING,
 comma joins and small numbers as they were parsed

---
 sql_parsing/formatting.py | 74 ++++++++++++++++++++++++++-------------
 sql_parsing/keywords.py   |  1 +
 sql_parsing/utils.py      | 14 ++++++--
 3 files changed, 62 insertions(+), 27 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 84dc83f..51b6833 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -99,6 +99,12 @@ def Operator(_op):
     return func
 
 
+def is_query(json):
+    return isinstance(json, dict) and bool(
+        json.keys() & ({"select", "select_distinct", "from"} | set(is_set_op))
+    )
+
+
 def isolate(expr, sql, prec):
     """
     RETURN sql IN PARENTHESIS IF PREEDENCE > prec
@@ -207,6 +213,12 @@ class Formatter:
 
         return text(json)
 
+    def expression(self, json, prec=MAX_PRECEDENCE):
+        """
+        A QUERY USED AS AN EXPRESSION NEEDS PARENTHESIS
+        """
+        return self.dispatch(json, precedence["list"] if is_query(json) else prec)
+
     def sql_list(self, json, prec=precedence["from"] - 1):
         sql = ", ".join(self.dispatch(element, prec=MAX_PRECEDENCE) for element in json)
         if prec >= precedence["from"]:
@@ -215,7 +227,7 @@ class Formatter:
             return f"({sql})"
 
     def value(self, json, prec=precedence["from"]):
-        parts = [self.dispatch(json["value"], prec)]
+        parts = [self.expression(json["value"], prec)]
         if "over" in json:
             over = json["over"]
             parts.append("OVER")
@@ -299,7 +311,10 @@ class Formatter:
                 key.upper() + "()"
             )  # NOT SURE IF AN EMPTY dict SHOULD BE DELT WITH HERE, OR IN self.format()
         else:
-            params = ", ".join(self.dispatch(p) for p in listwrap(value))
+            if key in ("all", "any", "some"):
+                params = self.dispatch(value)
+            else:
+                params = ", ".join(self.expression(p) for p in listwrap(value))
             return f"{key.upper()}({params})"
 
     def _binary_not(self, value, prec):
@@ -315,6 +330,8 @@ class Formatter:
         return "NOT({0})".format(self.dispatch(value))
 
     def _exists(self, value, prec):
+        if is_query(value):
+            return "EXISTS {0}".format(self.dispatch(value, tighter(prec)))
         return "{0} IS NOT NULL".format(self.dispatch(value, tighter(prec)))
 
     def _missing(self, value, prec):
@@ -325,12 +342,19 @@ class Formatter:
             self.dispatch(pair[0], precedence["collate"]), pair[1]
         )
 
+    def _set(self, set):
+        if isinstance(set, dict) and "literal" in set:
+            return {"literal": listwrap(set["literal"])}
+        elif isinstance(set, list) or is_query(set):
+            return set
+        else:
+            return [set]
+
     def _in(self, json, prec):
         member, set = json
-        if "literal" in set:
-            set = {"literal": listwrap(set["literal"])}
+        set = self._set(set)
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, tighter(precedence["in"]))
             + " IN "
             + self.dispatch(set, precedence["in"])
         )
@@ -340,10 +364,9 @@ class Formatter:
 
     def _nin(self, json, prec):
         member, set = json
-        if "literal" in set:
-            set = {"literal": listwrap(set["literal"])}
+        set = self._set(set)
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, tighter(precedence["in"]))
             + " NOT IN "
             + self.dispatch(set, precedence["in"])
         )
@@ -356,12 +379,12 @@ class Formatter:
         for check in checks if isinstance(checks, list) else [checks]:
             if isinstance(check, dict):
                 if "when" in check and "then" in check:
-                    parts.extend(["WHEN", self.dispatch(check["when"])])
-                    parts.extend(["THEN", self.dispatch(check["then"])])
+                    parts.extend(["WHEN", self.expression(check["when"])])
+                    parts.extend(["THEN", self.expression(check["then"])])
                 else:
-                    parts.extend(["ELSE", self.dispatch(check)])
+                    parts.extend(["ELSE", self.expression(check)])
             else:
-                parts.extend(["ELSE", self.dispatch(check)])
+                parts.extend(["ELSE", self.expression(check)])
         parts.append("END")
         return " ".join(parts)
 
@@ -374,7 +397,7 @@ class Formatter:
         else:
             type = {type_name.upper(): params}
 
-        return f"CAST({self.dispatch(expr)} AS {self.dispatch(type)})"
+        return f"CAST({self.expression(expr)} AS {self.dispatch(type)})"
 
     def _extract(self, json, prec):
         interval, value = json["extract"]
@@ -470,7 +493,7 @@ class Formatter:
             acc.append(self.dispatch(json["on"]))
         if json.get("using"):
             acc.append("USING")
-            acc.append(self.dispatch(json["using"]))
+            acc.append(self.sql_list(listwrap(json["using"])))
         return " ".join(acc)
 
     def ordered_query(self, json, prec):
@@ -537,7 +560,7 @@ class Formatter:
         return f"UPDATE {param}"
 
     def set(self, json, prec):
-        param = ", ".join([" = ".join([self.dispatch(k), self.dispatch(v)]) for k, v in json["set"].items()])
+        param = ", ".join([" = ".join([self.dispatch(k), self.expression(v)]) for k, v in json["set"].items()])
         return f"SET {param}"
 
     def distinct_on(self, json, prec):
@@ -549,7 +572,6 @@ class Formatter:
         return f"SELECT DISTINCT {param}"
 
     def from_(self, json, prec):
-        is_join = False
         from_ = json["from"]
         if isinstance(from_, dict) and is_set_op & from_.keys():
             source = self.op(from_, precedence["from"])
@@ -559,16 +581,16 @@ class Formatter:
         parts = []
         for v in from_:
             if join_keywords & set(v):
-                is_join = True
+                parts.append(" ")
                 parts.append(self._join_on(v, precedence["from"] - 1))
             else:
+                parts.append(", ")
                 parts.append(self.dispatch(v, precedence["from"] - 1))
-        joiner = " " if is_join else ", "
-        rest = joiner.join(parts)
+        rest = "".join(parts[1:])
         return f"FROM {rest}"
 
     def where(self, json, prec):
-        expr = self.dispatch(json["where"])
+        expr = self.expression(json["where"])
         return f"WHERE {expr}"
 
     def groupby(self, json, prec):
@@ -576,15 +598,18 @@ class Formatter:
         return f"GROUP BY {param}"
 
     def having(self, json, prec):
-        return "HAVING {0}".format(self.dispatch(json["having"]))
+        return "HAVING {0}".format(
+            self.expression(json["having"])
+        )
 
     def orderby(self, json, prec):
         param = ", ".join(
             (
-                self.dispatch(s["value"], precedence["order"])
+                self.expression(s["value"], precedence["order"])
                 + " "
                 + s.get("sort", "").upper()
             ).strip()
+            + (" NULLS " + s["nulls"].upper() if "nulls" in s else "")
             for s in listwrap(json["orderby"])
         )
         return f"ORDER BY {param}"
@@ -598,8 +623,8 @@ class Formatter:
         return f"OFFSET {num}"
 
     def fetch(self, json, prec):
-        num = self.dispatch(json["offset"], precedence["order"])
-        return f"FETCH {num} ROWS ONLY"
+        num = self.dispatch(json["fetch"], precedence["order"])
+        return f"FETCH FIRST {num} ROWS ONLY"
 
     def insert(self, json, prec=precedence["from"]):
         acc = ["INSERT"]
@@ -661,4 +686,5 @@ class Formatter:
 
 
 setattr(Formatter, "with", Formatter.with_)
+setattr(Formatter, "_eq!", Operator("<=>"))
 setattr(Formatter, "from", Formatter.from_)
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index dd96f35..deea85a 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -261,6 +261,7 @@ precedence = {
     "gt": 5,
     "eq": 7,
     "neq": 7,
+    "eq!": 7,
     "at_time_zone": 8,
     "between": 8,
     "not_between": 8,
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 67457f0..5134ae8 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -134,6 +134,14 @@ def to_lambda(tokens):
     return Call("lambda", [expr], {"params": list(params)})
 
 
+def not_null(operand):
+    value = scrub(operand)
+    if isinstance(value, dict) and value.keys() & {"select", "select_distinct", "from"}:
+        # {"exists": query} MEANS THE QUERY HAS A ROW
+        return Call("not", [Call("missing", operand, {})], {})
+    return Call("exists", operand, {})
+
+
 def to_json_operator(tokens):
     # ARRANGE INTO {op: params} FORMAT
     length = len(tokens.tokens)
@@ -162,9 +170,9 @@ def to_json_operator(tokens):
             return Call("missing", tokens[2], {})
     elif op == "neq":
         if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
+            return not_null(tokens[0])
         elif tokens[0] is SQL_NULL:
-            return Call("exists", tokens[2], {})
+            return not_null(tokens[2])
     elif op == "eq!":
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
@@ -601,7 +609,7 @@ def to_string(tokens):
 
 # NUMBERS
 real_num = (
-    Regex(r"[+-]?(\d+\.\d*|\.\d+)([eE][+-]?\d+)?").set_parser_name("float")
+    Regex(r"[+-]?((\d+\.\d*|\.\d+)([eE][+-]?\d+)?|\d+[eE]-\d+)").set_parser_name("float")
     / (lambda t: float(t[0]))
 )
 
-- 
2.43.0


From 81d77a006ccdeca70ad5c3c2ee179e75dd03ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:01 +0000
Subject: [PATCH 034/104] fix: read || as MySQL does, write CONCAT for MySQL,
 and keep the WITH of a query

---
 sql_parsing/__init__.py   | 15 ++++++++++++++-
 sql_parsing/formatting.py | 34 ++++++++++++++++++++++++++++++----
 sql_parsing/keywords.py   |  3 +++
 sql_parsing/sql_parser.py | 11 ++++++++---
 4 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 3619b1a..21f01cf 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -20,6 +20,7 @@ parse_locker = Lock()  # ENSURE ONLY ONE PARSING AT A TIME
 common_parser = None
 mysql_parser = None
 sqlserver_parser = None
+bigquery_parser = None
 
 SQL_NULL = {"null": {}}
 
@@ -69,7 +70,19 @@ def parse_sqlserver(sql, null=SQL_NULL, calls=simple_op):
         return _parse(sqlserver_parser, sql, null, calls)
 
 
-parse_bigquery = parse_mysql
+def parse_bigquery(sql, null=SQL_NULL, calls=simple_op):
+    """
+    PARSE BigQuery, LIKE MySQL BUT || CONCATENATES
+    :param sql: String of SQL
+    :param null: What value to use as NULL (default is the null function `{"null":{}}`)
+    :return: parse tree
+    """
+    global bigquery_parser
+
+    with parse_locker:
+        if not bigquery_parser:
+            bigquery_parser = sql_parser.bigquery_parser()
+        return _parse(bigquery_parser, sql, null, calls)
 
 
 def _parse(parser, sql, null, calls):
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 51b6833..3bc214d 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -125,6 +125,7 @@ def isolate(expr, sql, prec):
 
 unordered_clauses = [
     "with",
+    "with_recursive",
     "distinct_on",
     "select_distinct",
     "select",
@@ -147,7 +148,7 @@ ordered_clauses = [
 
 class Formatter:
     # infix operators
-    _concat = Operator("||")
+    _concat_op = Operator("||")
     _mul = Operator("*")
     _div = Operator("/")
     _mod = Operator("%")
@@ -196,7 +197,7 @@ class Formatter:
                 return self.insert(json)
             elif json.keys() & set(ordered_clauses):
                 return self.ordered_query(json, prec)
-            elif json.keys() & set(unordered_clauses):
+            elif json.keys() & set(unordered_clauses) and not json.keys() & set(is_set_op):
                 return self.unordered_query(json, prec)
             elif "null" in json:
                 return "NULL"
@@ -284,11 +285,24 @@ class Formatter:
             window = " ".join(window)
             parts.append(f"({window})")
         if "name" in json:
-            parts.extend(["AS", self.dispatch(json["name"])])
+            parts.extend(["AS", self.table_name(json["name"])])
 
         return " ".join(parts)
 
+    def table_name(self, json):
+        if isinstance(json, dict):
+            # {NAME: COLUMNS} FORM
+            name, columns = first(json.items())
+            return f"{self.dispatch(name)} {self.sql_list(listwrap(columns))}"
+        return self.dispatch(json)
+
     def op(self, json, prec):
+        if "with" in json or "with_recursive" in json:
+            # SET-OP EXPRESSION
+            clauses = {k: v for k, v in json.items() if k.startswith("with")}
+            query = {k: v for k, v in json.items() if k not in clauses}
+            sql = f"{self.unordered_query(clauses, MAX_PRECEDENCE)} {self.dispatch(query)}"
+            return sql if prec >= precedence["union"] else f"({sql})"
         if len(json) > 1:
             raise Exception("Operators should have only one key!")
         key, value = list(json.items())[0]
@@ -317,6 +331,13 @@ class Formatter:
                 params = ", ".join(self.expression(p) for p in listwrap(value))
             return f"{key.upper()}({params})"
 
+    def _concat(self, value, prec):
+        if self.ansi_quotes:
+            return self._concat_op(value, prec)
+        # || IS "OR" IN MYSQL
+        params = ", ".join(self.expression(p) for p in listwrap(value))
+        return f"CONCAT({params})"
+
     def _binary_not(self, value, prec):
         return "~{0}".format(self.dispatch(value, prec))
 
@@ -530,13 +551,18 @@ class Formatter:
         else:
             return f"({sql})"
 
+    def with_recursive(self, json, prec):
+        return "WITH RECURSIVE" + self.with_({"with": json["with_recursive"]}, prec)[4:]
+
     def with_(self, json, prec):
         if "with" in json:
             with_ = json["with"]
             if not isinstance(with_, list):
                 with_ = [with_]
             parts = ", ".join(
-                "{0} AS ({1})".format(part["name"], self.dispatch(part["value"]))
+                "{0} AS ({1})".format(
+                    self.table_name(part["name"]), self.dispatch(part["value"])
+                )
                 for part in with_
             )
             return "WITH {0}".format(parts)
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index deea85a..52dc14c 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -293,6 +293,9 @@ precedence = {
     "order": 50,
 }
 
+# "OR" IN MYSQL
+PIPES = Literal("||") / (lambda: "or")
+
 KNOWN_OPS = [
     COLLATE,
     NEG,
diff --git a/sql_parsing/sql_parser.py b/sql_parsing/sql_parser.py
index 9d0558c..84401c2 100644
--- a/sql_parsing/sql_parser.py
+++ b/sql_parsing/sql_parser.py
@@ -46,6 +46,11 @@ def common_parser():
 
 
 def mysql_parser():
+    # || IS "OR"
+    return bigquery_parser([OR | PIPES if o is OR else o for o in KNOWN_OPS if o is not CONCAT])
+
+
+def bigquery_parser(known_ops=KNOWN_OPS):
     mysql_string = ansi_string | mysql_doublequote_string
     mysql_ident = Combine(delimited_list(
         mysql_backtick_ident | sqlserver_ident | simple_ident,
@@ -53,7 +58,7 @@ def mysql_parser():
         combine=True,
     )).set_parser_name("mysql identifier")
 
-    return parser(mysql_string, mysql_ident)
+    return parser(mysql_string, mysql_ident, known_ops=known_ops)
 
 
 def sqlserver_parser():
@@ -69,7 +74,7 @@ def sqlserver_parser():
     return parser(ansi_string, combined_ident, sqlserver=True)
 
 
-def parser(literal_string, ident, sqlserver=False):
+def parser(literal_string, ident, sqlserver=False, known_ops=KNOWN_OPS):
     with Whitespace() as engine:
         engine.add_ignore(Literal("--") + restOfLine)
         engine.add_ignore(Literal("#") + restOfLine)
@@ -347,7 +352,7 @@ def parser(literal_string, ident, sqlserver=False):
                             unary_ops.get(o, LEFT_ASSOC),
                             to_lambda if o is LAMBDA else to_json_operator,
                         )
-                        for o in KNOWN_OPS
+                        for o in known_ops
                     ],
                 )
             )("value").set_parser_name("expression")
-- 
2.43.0


From c91781dc2955e777ed8280019934231402c16840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:37 +0000
Subject: [PATCH 035/104] fix: keep the difference between = and IS, and
 between IS DISTINCT FROM and its negation

---
 sql_parsing/formatting.py |  3 +++
 sql_parsing/keywords.py   |  6 ++++--
 sql_parsing/utils.py      | 37 +++++++++----------------------------
 3 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 3bc214d..3cce764 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -160,6 +160,8 @@ class Formatter:
     _gte = Operator(">=")
     _lte = Operator("<=")
     _eq = Operator("=")
+    _is = Operator("is")
+    _is_not = Operator("is not")
     _or = Operator("or")
     _and = Operator("and")
     _binary_and = Operator("&")
@@ -713,4 +715,5 @@ class Formatter:
 
 setattr(Formatter, "with", Formatter.with_)
 setattr(Formatter, "_eq!", Operator("<=>"))
+setattr(Formatter, "_ne!", Operator("is distinct from"))
 setattr(Formatter, "from", Formatter.from_)
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 52dc14c..e71d897 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -101,12 +101,12 @@ DEQ = (
 IDF = (
     # decisive equality
     # https://prestodb.io/docs/current/functions/comparison.html#is-distinct-from-and-is-not-distinct-from
-    keyword("is distinct from").set_parser_name("eq!")
+    keyword("is distinct from").set_parser_name("ne!")
 )
 INDF = (
     # decisive equality
     # https://prestodb.io/docs/current/functions/comparison.html#is-distinct-from-and-is-not-distinct-from
-    keyword("is not distinct from").set_parser_name("ne!")
+    keyword("is not distinct from").set_parser_name("eq!")
 )
 NEQ = (Literal("!=") | Literal("<>")).set_parser_name("neq")
 LAMBDA = Literal("->").set_parser_name("lambda")
@@ -262,12 +262,14 @@ precedence = {
     "eq": 7,
     "neq": 7,
     "eq!": 7,
+    "ne!": 7,
     "at_time_zone": 8,
     "between": 8,
     "not_between": 8,
     "in": 8,
     "nin": 8,
     "is": 8,
+    "is_not": 8,
     "missing": 8,
     "exists": 8,
     "like": 8,
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 5134ae8..6098cd6 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -163,36 +163,16 @@ def to_json_operator(tokens):
     if not isinstance(op, text):
         op = op.type.parser_name
     op = binary_ops.get(op, op)
-    if op == "eq":
+    if op == "is" or op == "eq!":
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
         elif tokens[0] is SQL_NULL:
             return Call("missing", tokens[2], {})
-    elif op == "neq":
+    elif op == "is_not" or op == "ne!":
         if tokens[2] is SQL_NULL:
             return not_null(tokens[0])
         elif tokens[0] is SQL_NULL:
             return not_null(tokens[2])
-    elif op == "eq!":
-        if tokens[2] is SQL_NULL:
-            return Call("missing", tokens[0], {})
-        elif tokens[0] is SQL_NULL:
-            return Call("missing", tokens[2], {})
-    elif op == "ne!":
-        if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
-        elif tokens[0] is SQL_NULL:
-            return Call("exists", tokens[2], {})
-    elif op == "is":
-        if tokens[2] is SQL_NULL:
-            return Call("missing", tokens[0], {})
-        else:
-            return Call("exists", tokens[0], {})
-    elif op == "is_not":
-        if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
-        else:
-            return Call("missing", tokens[0], {})
 
     operands = [tokens[0], tokens[2]]
     binary_op = Call(op, operands, {})
@@ -265,17 +245,18 @@ binary_ops = {
     ">=": "gte",
     "=": "eq",
     "==": "eq",
-    "is distinct from": "eq!",  # https://sparkbyexamples.com/apache-hive/hive-relational-arithmetic-logical-operators/
-    "is_distinct_from": "eq!",
-    "is not distinct from": "ne!",
-    "is_not_distinct_from": "ne!",
+    "is distinct from": "ne!",  # https://sparkbyexamples.com/apache-hive/hive-relational-arithmetic-logical-operators/
+    "is_distinct_from": "ne!",
+    "is not distinct from": "eq!",
+    "is_not_distinct_from": "eq!",
     "<=>": "eq!",  # https://sparkbyexamples.com/apache-hive/hive-relational-arithmetic-logical-operators/
     "!=": "neq",
     "<>": "neq",
     "not in": "nin",
     "in": "in",
-    "is_not": "neq",
-    "is": "eq",
+    "is_not": "is_not",
+    "is not": "is_not",
+    "is": "is",
     "similar_to": "similar_to",
     "like": "like",
     "rlike": "rlike",
-- 
2.43.0


From eff1c3b33d34cc869cf6f7adfe597cb1ca7c048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 036/104] fix: format window frames as BETWEEN, which is valid
 for every frame

---
 sql_parsing/formatting.py | 52 ++++++++++-----------------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 3cce764..242db74 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -242,47 +242,21 @@ class Formatter:
                 window.append(self.orderby(over, precedence["window"]))
             if "range" in over:
 
-                def wordy(v):
-                    if v < 0:
-                        return [text(abs(v)), "PRECEDING"]
-                    elif v > 0:
-                        return [text(v), "FOLLOWING"]
+                def bound(v, unbounded):
+                    if v is None:
+                        return f"UNBOUNDED {unbounded}"
+                    elif v == 0:
+                        return "CURRENT ROW"
+                    elif v < 0:
+                        return f"{text(-v)} PRECEDING"
+                    else:
+                        return f"{text(v)} FOLLOWING"
 
-                window.append("ROWS")
                 range = over["range"]
-                min = range.get("min")
-                max = range.get("max")
-
-                if min is None:
-                    if max is None:
-                        window.pop()  # not expected, but deal
-                    elif max == 0:
-                        window.append("UNBOUNDED PRECEDING")
-                    else:
-                        window.append("BETWEEN")
-                        window.append("UNBOUNDED PRECEDING")
-                        window.append("AND")
-                        window.extend(wordy(max))
-                elif min == 0:
-                    if max is None:
-                        window.append("UNBOUNDED FOLLOWING")
-                    elif max == 0:
-                        window.append("CURRENT ROW")
-                    else:
-                        window.extend(wordy(max))
-                else:
-                    if max is None:
-                        window.append("BETWEEN")
-                        window.extend(wordy(min))
-                        window.append("AND")
-                        window.append("UNBOUNDED FOLLOWING")
-                    elif max == 0:
-                        window.extend(wordy(min))
-                    else:
-                        window.append("BETWEEN")
-                        window.extend(wordy(min))
-                        window.append("AND")
-                        window.extend(wordy(max))
+                window.append(
+                    f"ROWS BETWEEN {bound(range.get('min'), 'PRECEDING')} AND"
+                    f" {bound(range.get('max'), 'FOLLOWING')}"
+                )
 
             window = " ".join(window)
             parts.append(f"({window})")
-- 
2.43.0


From 708b1fbb6818c9ca3a21c41aa43b107dae580745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 037/104] fix: keep the parentheses of a query inside lists,
 DISTINCT and TRIM when formatting

---
 sql_parsing/formatting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 242db74..8a0b463 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -223,7 +223,7 @@ class Formatter:
         return self.dispatch(json, precedence["list"] if is_query(json) else prec)
 
     def sql_list(self, json, prec=precedence["from"] - 1):
-        sql = ", ".join(self.dispatch(element, prec=MAX_PRECEDENCE) for element in json)
+        sql = ", ".join(self.expression(element) for element in json)
         if prec >= precedence["from"]:
             return sql
         else:
@@ -441,11 +441,11 @@ class Formatter:
             acc.append(d.upper())
             acc.append(" ")
         if c:
-            acc.append(self.dispatch(c))
+            acc.append(self.expression(c))
             acc.append(" ")
         if c or d:
             acc.append("FROM ")
-        acc.append(self.dispatch(v))
+        acc.append(self.expression(v))
         acc.append(")")
         return "".join(acc)
 
@@ -458,7 +458,7 @@ class Formatter:
 
     def _distinct(self, json, prec):
         return "DISTINCT " + ", ".join(
-            self.dispatch(v, precedence["select"]) for v in listwrap(json)
+            self.expression(v, precedence["select"]) for v in listwrap(json)
         )
 
     def _select_distinct(self, json, prec):
-- 
2.43.0


From 4786b1fcb10038930a9cd656bdd2357ec3c3d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 038/104] fix: give every parse its own NULL, so that changing
 one parse does not change later ones

---
 sql_parsing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 21f01cf..346408c 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -92,7 +92,7 @@ def _parse(parser, sql, null, calls):
     parse_result = parser.parse_string(sql, parse_all=True)
     output = scrub(parse_result)
     for o, n in utils.null_locations:
-        o[n] = null
+        o[n] = {"null": {}} if null is SQL_NULL else null  # DO NOT SHARE
     return output
 
 
-- 
2.43.0


From 76119942e9c018614686e4db923c422656a6cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 039/104] fix: allow comments between the words of a compound
 keyword, IS /**/ NOT x was read as IS (NOT x)

---
 sql_parsing/keywords.py   | 8 +++++++-
 sql_parsing/sql_parser.py | 5 +----
 sql_parsing/utils.py      | 8 ++++++++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index e71d897..4aeb053 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -9,8 +9,12 @@
 
 # SQL CONSTANTS
 from parsing import *
+from parsing.whitespaces import Whitespace
 
-from sql_parsing.utils import SQL_NULL, keyword
+from sql_parsing.utils import SQL_NULL, ignore_comments, keyword
+
+# COMMENTS MAY SEPARATE THE WORDS OF A COMPOUND KEYWORD
+_whitespace = ignore_comments(Whitespace().use())
 
 NULL = keyword("null") / (lambda: SQL_NULL)
 TRUE = keyword("true") / (lambda: True)
@@ -397,3 +401,5 @@ durations = {
     "mil": "millennium",
     "epoch": "epoch",
 }
+
+_whitespace.release()
diff --git a/sql_parsing/sql_parser.py b/sql_parsing/sql_parser.py
index 84401c2..1d8ade0 100644
--- a/sql_parsing/sql_parser.py
+++ b/sql_parsing/sql_parser.py
@@ -8,7 +8,6 @@
 #
 
 
-from parsing.helpers import restOfLine
 from parsing.infix import delimited_list
 from parsing.whitespaces import NO_WHITESPACE, Whitespace
 
@@ -76,9 +75,7 @@ def sqlserver_parser():
 
 def parser(literal_string, ident, sqlserver=False, known_ops=KNOWN_OPS):
     with Whitespace() as engine:
-        engine.add_ignore(Literal("--") + restOfLine)
-        engine.add_ignore(Literal("#") + restOfLine)
-        engine.add_ignore(Literal("/*") + SkipTo("*/", include=True))
+        ignore_comments(engine)
 
         var_name = ~RESERVED + ident
 
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 6098cd6..2167fed 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -13,6 +13,7 @@ from dots import is_data, is_null, Data, from_data
 from parsing_future import text, number_types, binary_type, flatten
 from imports import expect
 from parsing import *
+from parsing.helpers import restOfLine
 from parsing.utils import is_number, listwrap
 
 unary_ops = expect("unary_ops")
@@ -34,6 +35,13 @@ SQL_NULL = Call("null", [], {})
 null_locations = []
 
 
+def ignore_comments(engine):
+    engine.add_ignore(Literal("--") + restOfLine)
+    engine.add_ignore(Literal("#") + restOfLine)
+    engine.add_ignore(Literal("/*") + SkipTo("*/", include=True))
+    return engine
+
+
 def keyword(keywords):
     return And([
         Keyword(k, caseless=True) for k in keywords.split(" ")
-- 
2.43.0


From f6b8a54c22ff6c56e5a971fb19a66cd2f1525dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 040/104] fix: quote names with a line break or letters beyond
 ASCII, and keep CONCAT of other than two values

---
 sql_parsing/formatting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 8a0b463..d18aa68 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -19,7 +19,7 @@ from sql_parsing.keywords import RESERVED, join_keywords, precedence
 from sql_parsing.utils import binary_ops, is_set_op
 
 MAX_PRECEDENCE = 100
-VALID = re.compile(r"^[a-zA-Z_]\w*$")
+VALID = re.compile(r"[a-zA-Z_]\w*\Z", re.ASCII)
 
 
 def is_keyword(identifier):
@@ -308,9 +308,9 @@ class Formatter:
             return f"{key.upper()}({params})"
 
     def _concat(self, value, prec):
-        if self.ansi_quotes:
+        if self.ansi_quotes and isinstance(value, list) and len(value) == 2:
             return self._concat_op(value, prec)
-        # || IS "OR" IN MYSQL
+        # || IS "OR" IN MYSQL, AND TAKES TWO
         params = ", ".join(self.expression(p) for p in listwrap(value))
         return f"CONCAT({params})"
 
-- 
2.43.0


From 0188096e67c169bb0541877cb22b1d38fbad43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:26 +0000
Subject: [PATCH 041/104] fix: LIKE with a decimal number sent the pattern to
 the database in the clear

---
 scheduler/handers/clause/sql_where.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index c43f901..10a0262 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -86,7 +86,7 @@ class SQLWhere(Rewriter):
                     return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
             self.check_plaintext(where_value, table)
             return where_value
-        if isinstance(where_value, int):
+        if isinstance(where_value, (int, float)):
             if cipher == 'fuzzy':
                 return {'literal': self.rewrite(str(where_value), table, cipher=cipher, key=key)}
             if cipher == 'symmetric':
-- 
2.43.0


From 64338121603803f57128a1c45fd78d6e0ec3b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 042/104] fix: the UNIQUE of a column was dropped by CREATE
 TABLE

A column's UNIQUE never reached the stored table.  CHECK on a column and ON DELETE/ON UPDATE of a foreign key were
silently left out as well; they are refused now.
---
 scheduler/handers/table.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index e4abd38..988500f 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -25,6 +25,9 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     for col in columns:
         auto_increment = '' if not col.get('auto_increment') else ' auto_increment '
         primary_key = auto_increment if not col.get('primary_key') else ' primary key' + auto_increment
+        primary_key += ' unique' if col.get('unique') else ''
+        if 'check' in col:
+            raise Exception("Not support a check on column {}".format(col['name']))
         col_name = col['name']
         col_type = col['type'] if isinstance(col['type'], dict) else {col['type']: {}}
         unsigned = ' unsigned' if col_type.get('unsigned') else ''
@@ -140,6 +143,8 @@ def get_constraint_key(constraint, columns_info, db=None):
     key_cons = constraint.get('foreign_key', constraint.get('primary_key'))
     assert key_cons is not None, 'constraint only support primary/foreign key'
     reference = key_cons.get('references')
+    if set(key_cons) - {'columns', 'references'}:
+        raise Exception("Not support the options {} of a key".format(sorted(set(key_cons) - {'columns', 'references'})))
     key = 'FOREIGN KEY' if reference else 'PRIMARY KEY'
     reference_phrase = get_reference_phrase(reference, db) if reference else ''
     columns = key_cons.get('columns')
-- 
2.43.0


From d2ed92375ff1dd764f25d3a1d31133ee44a08672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 043/104] fix: the pool of connections exceeded its limit and
 failed while sharing

A shared request went beyond maxconnections when the shared cache was neither empty nor full, and after waiting for a
transaction to end it took from a shared cache that could be empty by then (IndexError).  The conditions are checked
again after each wait.  close() no longer counts shared connections down, which their borrowers do when returning them.
---
 dbutils/pooled_db.py | 47 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 3265fac..5e387ad 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -287,30 +287,30 @@ class PooledDB:
         """
         if shareable and self._maxshared:
             with self._lock:
-                while (not self._shared_cache and self._maxconnections
-                        and self._connections >= self._maxconnections):
-                    self._wait_lock()
-                if len(self._shared_cache) < self._maxshared:
-                    # shared cache is not full, get a dedicated connection
-                    try:  # first try to get it from the idle cache
-                        con = self._idle_cache.pop(0)
-                    except IndexError:  # else get a fresh connection
-                        con = self.steady_connection()
-                    else:
-                        con._ping_check()  # check this connection
-                    con = SharedDBConnection(con)
-                    self._connections += 1
-                else:  # shared cache full or no more connections allowed
+                while True:
+                    if (len(self._shared_cache) < self._maxshared
+                            and (not self._maxconnections or
+                                 self._connections < self._maxconnections)):
+                        # shared cache is not full, get a dedicated connection
+                        try:  # first try to get it from the idle cache
+                            con = self._idle_cache.pop(0)
+                        except IndexError:  # else get a fresh connection
+                            con = self.steady_connection()
+                        else:
+                            con._ping_check()  # check this connection
+                        con = SharedDBConnection(con)
+                        self._connections += 1
+                        break
+                    # shared cache full or no more connections allowed
                     self._shared_cache.sort()  # least shared connection first
-                    con = self._shared_cache.pop(0)  # get it
-                    while con.con._transaction:
-                        # do not share connections which are in a transaction
-                        self._shared_cache.insert(0, con)
-                        self._wait_lock()
-                        self._shared_cache.sort()
-                        con = self._shared_cache.pop(0)
-                    con.con._ping_check()  # check the underlying connection
-                    con.share()  # increase share of this connection
+                    # do not share connections which are in a transaction
+                    if (self._shared_cache
+                            and not self._shared_cache[0].con._transaction):
+                        con = self._shared_cache.pop(0)  # get it
+                        con.con._ping_check()  # check the underlying connection
+                        con.share()  # increase share of this connection
+                        break
+                    self._wait_lock()
                 # put the connection (back) into the shared cache
                 self._shared_cache.append(con)
                 self._lock.notify()
@@ -376,7 +376,6 @@ class PooledDB:
                         con.close()
                     except Exception:
                         pass
-                    self._connections -= 1
             self._lock.notify_all()
 
     def __del__(self):
-- 
2.43.0


From 69c72388514875a8aaf1300c80996c30617723e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:49 +0000
Subject: [PATCH 044/104] fix: CREATE TABLE lost the character set and column
 collations, and reserved words as key columns failed

DEFAULT CHARSET / DEFAULT CHARACTER SET and the COLLATE of plain columns did not reach the stored table, so its text was
stored and compared in another character set.  Plain columns in PRIMARY KEY (...) are quoted where their name needs it.
---
 scheduler/handers/table.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 988500f..67c355f 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -48,6 +48,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                 else:
                     enc_col_type = t_k + unsigned
                 default_value = ' DEFAULT ' + format(col['default']) if 'default' in col else ''
+                if col.get('collate'):
+                    enc_col_type += ' COLLATE ' + col['collate']
                 enc_columns.append(format(col_name, ansi_quotes=False) + ' ' + enc_col_type + is_nullable + primary_key
                                    + default_value)
                 columns_kv[col_name]['plaintext'] = True
@@ -105,9 +107,11 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     engine = ' ENGINE = ' + create_table.get('engine') if create_table.get('engine') else ''
     table_auto_increment = ' AUTO_INCREMENT = ' + str(create_table.get('auto_increment')) \
         if create_table.get('auto_increment') else ''
+    charset = create_table.get('default_charset') or create_table.get('default_character_set')
+    table_charset = ' DEFAULT CHARSET = ' + charset if charset else ''
     table_collate = ' COLLATE = ' + create_table.get('collate') if create_table.get('collate') else ''
     query = 'CREATE TABLE IF NOT EXISTS ' + anonymous_table + '(' + ",".join(enc_columns) + enc_constraint + ')' \
-            + engine + table_auto_increment + table_collate + ';'
+            + engine + table_auto_increment + table_charset + table_collate + ';'
 
     table_meta = {
         table_name: {
@@ -133,13 +137,13 @@ def get_enc_columns(columns, columns_info, cipher='symmetric'):
     enc_columns = []
     for i in columns:
         feature_info = columns_info.get(i, {})
-        enc_feature = i if feature_info.get('plaintext') else feature_info['enc-cols'][cipher]
+        enc_feature = format(i, ansi_quotes=False) if feature_info.get('plaintext') else feature_info['enc-cols'][cipher]
         enc_columns.append(enc_feature)
     return enc_columns
 
 
 def get_constraint_key(constraint, columns_info, db=None):
-    constraint_name = f"CONSTRAINT {constraint['name']} " if constraint.get('name') else ''
+    constraint_name = f"CONSTRAINT {format(constraint['name'], ansi_quotes=False)} " if constraint.get('name') else ''
     key_cons = constraint.get('foreign_key', constraint.get('primary_key'))
     assert key_cons is not None, 'constraint only support primary/foreign key'
     reference = key_cons.get('references')
-- 
2.43.0


From 2380cb78391479ef6836d8be58d2a261dc5a5b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:51 +0000
Subject: [PATCH 045/104] fix: a batch load stored other values than single
 inserts

Values of FLOAT and DOUBLE columns were not encoded, the SM4 and homomorphic forms were left out (so the columns no longer
matched the values), and texts such as 007, NA or 1e5 were loaded as numbers or missing values.  The batch now takes each
field as written and encrypts it as INSERT does.
---
 .../backend/executors/remote_executor.py      | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 81e4a71..57bcd77 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -5,12 +5,13 @@ import numpy as np
 
 import mysql.connector
 
+from sql_parsing import format
 from scheduler.handers.rewrite_hander import Rewriter
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.backend.executors.abstract_executor import AbstractQueryExecutor
 from scheduler.compile.keywords_lists import QueryType
 from dbutils.pooled_db import PooledDB
 from scheduler.schema.metadata import Delta
-from scheduler.crypto import encrypt
 
 SQL_TYPES = [
     QueryType.CREATE,
@@ -138,27 +139,23 @@ class RemoteExecutor(AbstractQueryExecutor):
                 for enc, value in columns_info[col]['enc-cols'].items():
                     new_columns.append(value)
             else:
-                new_columns.append(col)
+                new_columns.append(format(col, ansi_quotes=False))
         chunk_size = 10 ** 4 * 2
         cursor = self.conn.cursor()
-        for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None):
+        values = SQLValues(delta)
+        # every value is taken as it is written, not as a number or a missing value it may look like
+        for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None, dtype=str,
+                                 keep_default_na=False):
             data = np.transpose(chunk.values)
             enc_data = []
             for idx, col in enumerate(columns):
                 if not columns_info[col]['plaintext']:
+                    input_type = int if columns_info[col]['type'] == 'int' else str
                     for enc, value in columns_info[col]['enc-cols'].items():
-                        if enc == "order-preserving":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.OPECipher(columns_info[col]['key']).encrypt, int, (data[idx])))
-                        if enc == "symmetric":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.AESCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
-                        if enc == "fuzzy":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.FuzzyCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
+                        enc_data.append(
+                            self.batch_enc(
+                                lambda val: values.encrypt_value(table, col, {'literal': val}, enc)['value'],
+                                input_type, (data[idx])))
                 else:
                     enc_data.append(data[idx])
             query = "insert into {} (".format(new_table) + ",".join(new_columns) + ") values(" \
@@ -173,7 +170,8 @@ class RemoteExecutor(AbstractQueryExecutor):
     def batch_enc(func, input_type, data):
         enc_data = []
         for i in data:
-            enc_data.append(func(input_type(i)))
+            value = func(input_type(i))
+            enc_data.append(value['literal'] if isinstance(value, dict) else value)
         return enc_data
 
     def dispatch(self, query):
-- 
2.43.0


From 750bf2dda67d1754ed3ac3ddaf7467dac974a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 046/104] fix: formatting changed line breaks and blanks inside
 of strings and quoted names

---
 scheduler/compile/parse/filters/others.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheduler/compile/parse/filters/others.py b/scheduler/compile/parse/filters/others.py
index 905f67e..25dd55f 100644
--- a/scheduler/compile/parse/filters/others.py
+++ b/scheduler/compile/parse/filters/others.py
@@ -9,7 +9,7 @@ import re
 
 from scheduler.compile.parse import sql
 from scheduler.compile.parse import tokens as T
-from scheduler.compile.parse.utils import split_unquoted_newlines
+from scheduler.compile.parse.utils import LINE_MATCH
 
 
 class StripCommentsFilter:
@@ -133,5 +133,17 @@ class SpacesAroundOperatorsFilter:
 class SerializerUnicode:
     @staticmethod
     def process(stmt):
-        lines = split_unquoted_newlines(stmt)
-        return '\n'.join(line.rstrip() for line in lines)
+        lines = ['']
+        for token in stmt.flatten():
+            # line breaks and blanks inside of strings and quoted names belong
+            # to the value
+            if token.ttype in T.Literal or token.ttype in T.Name:
+                lines[-1] += token.value
+                continue
+            first, *rest = LINE_MATCH.split(token.value)[::2]
+            lines[-1] += first
+            for text in rest:
+                lines[-1] = lines[-1].rstrip()
+                lines.append(text)
+        lines[-1] = lines[-1].rstrip()
+        return '\n'.join(lines)
-- 
2.43.0


From 81f9a8942bcb377be3dbefde3d16f366b16d7e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 047/104] fix: stripping a comment joined the words around it

---
 scheduler/compile/parse/filters/others.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scheduler/compile/parse/filters/others.py b/scheduler/compile/parse/filters/others.py
index 25dd55f..a4986ec 100644
--- a/scheduler/compile/parse/filters/others.py
+++ b/scheduler/compile/parse/filters/others.py
@@ -43,7 +43,9 @@ class StripCommentsFilter:
                     or next_.is_whitespace or next_.match(T.Punctuation, ')')):
                 # Insert a whitespace to ensure the following SQL produces
                 # a valid SQL (see #425).
-                if prev_ is not None and not prev_.match(T.Punctuation, '('):
+                if (prev_ is not None and not prev_.match(T.Punctuation, '(')
+                        or prev_ is None and tlist.parent is not None
+                        and not isinstance(tlist, sql.Comment)):
                     tlist.tokens.insert(tidx, _get_insert_token(token))
                 tlist.tokens.remove(token)
             else:
@@ -66,7 +68,7 @@ class StripWhitespaceFilter:
     @staticmethod
     def _stripws_default(tlist):
         last_was_ws = False
-        is_first_char = True
+        is_first_char = tlist.parent is None
         for token in tlist.tokens:
             if token.is_whitespace:
                 token.value = '' if last_was_ws or is_first_char else ' '
-- 
2.43.0


From 2f93213428a13fa998d6a3ef34686cea2bfc356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 048/104] fix: stripping whitespace twice gave another text
 than stripping it once

---
 scheduler/compile/parse/filters/others.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scheduler/compile/parse/filters/others.py b/scheduler/compile/parse/filters/others.py
index a4986ec..0b4f4a0 100644
--- a/scheduler/compile/parse/filters/others.py
+++ b/scheduler/compile/parse/filters/others.py
@@ -77,11 +77,15 @@ class StripWhitespaceFilter:
 
     def _stripws_identifierlist(self, tlist):
         # Removes newlines before commas, see issue140
-        last_nl = None
+        blanks = []
         for token in list(tlist.tokens):
-            if last_nl and token.ttype is T.Punctuation and token.value == ',':
-                tlist.tokens.remove(last_nl)
-            last_nl = token if token.is_whitespace else None
+            if token.is_whitespace:
+                blanks.append(token)
+                continue
+            if token.ttype is T.Punctuation and token.value == ',':
+                for blank in blanks:
+                    tlist.tokens.remove(blank)
+            blanks = []
 
             # next_ = tlist.token_next(token, skip_ws=False)
             # if (next_ and not next_.is_whitespace and
@@ -99,6 +103,8 @@ class StripWhitespaceFilter:
     def process(self, stmt, depth=0):
         [self.process(sgroup, depth + 1) for sgroup in stmt.get_sublists()]
         self._stripws(stmt)
+        while depth == 0 and stmt.tokens and stmt.tokens[0].is_whitespace:
+            stmt.tokens.pop(0)
         if depth == 0 and stmt.tokens and stmt.tokens[-1].is_whitespace:
             stmt.tokens.pop(-1)
         return stmt
-- 
2.43.0


From 0466d76ecedfd00fcf6ed87018d9f1c7b60e6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 049/104] fix: a blank was added between an operator and a line
 break

---
 scheduler/compile/parse/filters/others.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/compile/parse/filters/others.py b/scheduler/compile/parse/filters/others.py
index 0b4f4a0..c568425 100644
--- a/scheduler/compile/parse/filters/others.py
+++ b/scheduler/compile/parse/filters/others.py
@@ -118,11 +118,11 @@ class SpacesAroundOperatorsFilter:
         tidx, token = tlist.token_next_by(t=ttypes)
         while token:
             nidx, next_ = tlist.token_next(tidx, skip_ws=False)
-            if next_ and next_.ttype != T.Whitespace:
+            if next_ and not next_.is_whitespace:
                 tlist.insert_after(tidx, sql.Token(T.Whitespace, ' '))
 
             pidx, prev_ = tlist.token_prev(tidx, skip_ws=False)
-            if prev_ and prev_.ttype != T.Whitespace:
+            if prev_ and not prev_.is_whitespace:
                 tlist.insert_before(tidx, sql.Token(T.Whitespace, ' '))
                 tidx += 1  # has to shift since token inserted before it
 
-- 
2.43.0


From 7ac95cb92883a6dbe4bfda835e082101dbaf6abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 050/104] fix: a keyword before a number that starts with a
 point was read as a name

---
 scheduler/compile/parse/keywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/compile/parse/keywords.py b/scheduler/compile/parse/keywords.py
index d078d59..37f2f9e 100644
--- a/scheduler/compile/parse/keywords.py
+++ b/scheduler/compile/parse/keywords.py
@@ -56,7 +56,7 @@ SQL_REGEX = {
         # see issue #39
         # Spaces around period `schema . name` are valid identifier
         # TODO: Spaces before period not implemented
-        (r'[A-ZÀ-Ü]\w*(?=\s*\.)', tokens.Name),  # 'Name'   .
+        (r'[A-ZÀ-Ü]\w*(?=\.|\s+\.(?!\d))', tokens.Name),  # 'Name'   .
         # FIXME(atronah): never match,
         # because `re.match` doesn't work with look-behind regexp feature
         (r'(?<=\.)[A-ZÀ-Ü]\w*', tokens.Name),  # .'Name'
-- 
2.43.0


From cdd3354f6baf51160c41e869160a695b9fda191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 051/104] fix: operators swallowed the start of a comment, and
 names in other alphabets were errors

---
 scheduler/compile/parse/keywords.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheduler/compile/parse/keywords.py b/scheduler/compile/parse/keywords.py
index 37f2f9e..185d856 100644
--- a/scheduler/compile/parse/keywords.py
+++ b/scheduler/compile/parse/keywords.py
@@ -93,7 +93,10 @@ SQL_REGEX = {
         (r'[0-9_A-ZÀ-Ü][_$#\w]*', is_keyword),
         (r'[;:()\[\],\.]', tokens.Punctuation),
         (r'[<>=~!]+', tokens.Operator.Comparison),
-        (r'[+/@#%^&|^-]+', tokens.Operator),
+        # names in other alphabets
+        (r'[^\W\d]\w*', tokens.Name),
+        # an operator ends where a comment starts
+        (r'[+/@#%^&|^-](?:(?!--|/\*|# )[+/@#%^&|^-])*', tokens.Operator),
     ]}
 
 FLAGS = re.IGNORECASE | re.UNICODE
-- 
2.43.0


From 5f490f58e94a2af36afa0f0e9ee5fc3dce4dfbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 052/104] fix: numbers in lists were taken for the limit and
 offset

---
 scheduler/compile/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 3e39bf0..0c227cb 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -391,7 +391,10 @@ class Parser:  # pylint: disable=R0902
                 elif token.last_keyword_normalized == "OFFSET":
                     # OFFSET <offset>
                     offset = int(token.value)
-                elif token.previous_token.is_punctuation:
+                elif (
+                    token.last_keyword_normalized == "LIMIT"
+                    and token.previous_token.is_punctuation
+                ):
                     # LIMIT <offset>,<limit>
                     offset = limit
                     limit = int(token.value)
-- 
2.43.0


From 548cdf12abf36cc56c5110a3c79fa102e93952ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 053/104] fix: comments between the words of a statement hid
 its tables and columns

---
 scheduler/compile/parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 0c227cb..32b2973 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Set, Tuple, Union
 
 from . import parse as sqlparse
 from .parse.sql import Token
-from .parse.tokens import Name, Number, Whitespace
+from .parse.tokens import Comment, Name, Number, Whitespace
 
 from .generalizator import Generalizator
 from .keywords_lists import (
@@ -75,6 +75,7 @@ class Parser:  # pylint: disable=R0902
 
         self.sqlparse_tokens = None
         self.non_empty_tokens = None
+        self._comments = []
         self.tokens_length = None
 
     @property
@@ -609,7 +610,8 @@ class Parser:  # pylint: disable=R0902
         """
         Return comments from SQL query
         """
-        return [x.value for x in self.tokens if x.is_comment]
+        _ = self.tokens
+        return list(self._comments)
 
     @property
     def without_comments(self) -> str:
@@ -1023,6 +1025,13 @@ class Parser:  # pylint: disable=R0902
             for token in sqlparse_tokens
             if token.ttype is not Whitespace and token.ttype.parent is not Whitespace
         ]
+        # comments can be anywhere, the tokens around them are neighbours
+        self._comments = [
+            token.value for token in self.non_empty_tokens if token.ttype in Comment
+        ]
+        self.non_empty_tokens = [
+            token for token in self.non_empty_tokens if token.ttype not in Comment
+        ]
         self.tokens_length = len(self.non_empty_tokens)
 
     def _flatten_sqlparse(self):
-- 
2.43.0


From 1786b7d8a4427cdba3756e3cbeaf92cd3fbd4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 054/104] fix: the columns of a key added by ALTER TABLE were
 taken for tables

---
 scheduler/compile/token.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scheduler/compile/token.py b/scheduler/compile/token.py
index bcf5720..2d8f828 100644
--- a/scheduler/compile/token.py
+++ b/scheduler/compile/token.py
@@ -369,9 +369,12 @@ class SQLToken:  # pylint: disable=R0902, R0904
         parenthesis-wrapped list of column
         """
         return (
-            query_type == QueryType.CREATE.value
-            and self.is_in_parenthesis
-            and self.is_create_table_columns_definition
+            self.is_in_parenthesis
+            and (
+                query_type == QueryType.ALTER
+                or query_type == QueryType.CREATE
+                and self.is_create_table_columns_definition
+            )
         )
 
     def is_columns_alias_of_with_query_or_column_in_insert_query(
-- 
2.43.0


From 35e6e5c37ec90911f4255c540321efb793b29281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 055/104] fix: the keyword after a table was taken for an alias
 of it

---
 scheduler/compile/keywords_lists.py | 18 ++++++++++++++++++
 scheduler/compile/parser.py         |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/scheduler/compile/keywords_lists.py b/scheduler/compile/keywords_lists.py
index 6163acd..563f9a7 100644
--- a/scheduler/compile/keywords_lists.py
+++ b/scheduler/compile/keywords_lists.py
@@ -33,6 +33,24 @@ TABLE_ADJUSTMENT_KEYWORDS = {
     "TABLE",
 }
 
+# keywords that can follow a table and are not an alias of it
+KEYWORDS_AFTER_TABLES = {
+    "NATURALJOIN",
+    "STRAIGHT_JOIN",
+    "UNION",
+    "UNIONALL",
+    "INTERSECT",
+    "EXCEPT",
+    "HAVING",
+    "FOR",
+    "DEFAULT",
+    "ADD",
+    "DROP",
+    "MODIFY",
+    "CHANGE",
+    "RENAME",
+}
+
 # next statement beginning after with statement
 WITH_ENDING_KEYWORDS = {"UPDATE", "SELECT", "DELETE", "REPLACE", "INSERT"}
 
diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 32b2973..ce9f33b 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -13,6 +13,7 @@ from .parse.tokens import Comment, Name, Number, Whitespace
 from .generalizator import Generalizator
 from .keywords_lists import (
     COLUMNS_SECTIONS,
+    KEYWORDS_AFTER_TABLES,
     KEYWORDS_BEFORE_COLUMNS,
     TokenType,
     RELEVANT_KEYWORDS,
@@ -423,6 +424,10 @@ class Parser:  # pylint: disable=R0902
             if (
                 token.last_keyword_normalized in TABLE_ADJUSTMENT_KEYWORDS
                 and (token.is_name or (token.is_keyword and not token.is_as_keyword))
+                and not (
+                    token.is_keyword
+                    and token.normalized in RELEVANT_KEYWORDS | KEYWORDS_AFTER_TABLES
+                )
                 and not token.next_token.is_as_keyword
             ):
                 if token.previous_token.is_as_keyword:
-- 
2.43.0


From 2a8d8e1387596a825c93f9ba057e771db165ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 056/104] fix: the last operand of an expression was taken for
 its alias

---
 scheduler/compile/token.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheduler/compile/token.py b/scheduler/compile/token.py
index 2d8f828..b7af202 100644
--- a/scheduler/compile/token.py
+++ b/scheduler/compile/token.py
@@ -3,7 +3,7 @@ Module contains internal SQLToken that creates linked list
 """
 from typing import Dict, List, Union
 from . import parse
-from .parse.tokens import Comment, Name, Number, Punctuation, Wildcard, Keyword
+from .parse.tokens import Comment, Name, Number, Operator, Punctuation, Wildcard, Keyword
 
 from .keywords_lists import (
     KEYWORDS_BEFORE_COLUMNS,
@@ -37,6 +37,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
             self.is_punctuation = tok.ttype is Punctuation
             self.is_dot = str(tok) == "."
             self.is_wildcard = tok.ttype is Wildcard
+            self.is_operator = tok.ttype in Operator or tok.ttype is Wildcard
             self.is_integer = tok.ttype is Number.Integer
             self.is_float = tok.ttype is Number.Float
             self.is_comment = tok.ttype is Comment or tok.ttype.parent == Comment
@@ -59,6 +60,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
         self.is_punctuation = False
         self.is_dot = False
         self.is_wildcard = False
+        self.is_operator = False
         self.is_integer = False
         self.is_float = False
         self.is_comment = False
@@ -187,6 +189,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
             self.next_token.normalized in [",", "FROM"]
             and self.previous_token.normalized not in [",", ".", "(", "SELECT"]
             and not self.previous_token.is_keyword
+            and not self.previous_token.is_operator
             and (
                 self.last_keyword_normalized == "SELECT"
                 or self.previous_token.is_column_definition_end
-- 
2.43.0


From eb592b893cb5065c4bfd4512eb8a580df2b925b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:32 +0000
Subject: [PATCH 057/104] fix: quotes at the ends of an inserted string were
 lost

---
 scheduler/compile/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index ce9f33b..176657c 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -589,7 +589,9 @@ class Parser:  # pylint: disable=R0902
                 elif token.is_float:
                     value = float(token.value)
                 else:
-                    value = token.value.strip("'\"")
+                    value = token.value
+                    if value[:1] == "'":
+                        value = value[1:-1]
                 values.append(value)
         self._values = values
         return self._values
-- 
2.43.0


From 52c6d5ca9a531a5f345d300df009ae2759d7abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:07 +0000
Subject: [PATCH 058/104] fix: dropping anything was taken for dropping a table

---
 scheduler/compile/keywords_lists.py | 2 +-
 scheduler/compile/parser.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheduler/compile/keywords_lists.py b/scheduler/compile/keywords_lists.py
index 563f9a7..e5adfbb 100644
--- a/scheduler/compile/keywords_lists.py
+++ b/scheduler/compile/keywords_lists.py
@@ -121,7 +121,7 @@ SUPPORTED_QUERY_TYPES = {
     "WITH": QueryType.SELECT,
     "CREATETABLE": QueryType.CREATE,
     "ALTERTABLE": QueryType.ALTER,
-    'DROP': QueryType.DROP
+    'DROPTABLE': QueryType.DROP
 }
 
 # all the keywords we care for - rest is ignored in assigning
diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 176657c..b9b49d8 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -115,8 +115,8 @@ class Parser:  # pylint: disable=R0902
             )
             .position
         )
-        if tokens[index].normalized in ["CREATE", "ALTER"]:
-            switch = tokens[index].normalized + tokens[index + 1].normalized
+        if tokens[index].normalized in ["CREATE", "ALTER", "DROP"]:
+            switch = tokens[index].normalized + tokens[index].next_token.normalized
         else:
             switch = tokens[index].normalized
         self._query_type = SUPPORTED_QUERY_TYPES.get(switch, "UNSUPPORTED")
-- 
2.43.0


From 151986506eb3a9e9afc0c6b96072436a3c2b6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:43 +0000
Subject: [PATCH 059/104] fix: quotes in comments, line breaks and escaped
 quotes in strings changed the statement

---
 scheduler/compile/parser.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index b9b49d8..06b640b 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -950,24 +950,22 @@ class Parser:  # pylint: disable=R0902
         if self._raw_query == "":
             return ""
 
-        # python re does not have variable length look back/forward
-        # so we need to replace all the " (double quote) for a
-        # temporary placeholder as we DO NOT want to replace those
-        # in the strings as this is something that user provided
-        def replace_quotes_in_string(match):
-            return re.sub('"', "<!!__QUOTE__!!>", match.group())
-
-        def replace_back_quotes_in_string(match):
-            return re.sub("<!!__QUOTE__!!>", '"', match.group())
-
         # unify quoting in queries, replace double quotes to backticks
         # it's best to keep the quotes as they can have keywords
         # or digits at the beginning so we only strip them in SQLToken
         # as double quotes are not properly handled in sqlparse
-        query = re.sub(r"'.*?'", replace_quotes_in_string, self._raw_query)
-        query = re.sub(r'"([^`]+?)"', r"`\1`", query)
-        query = re.sub(r'"([^`]+?)"\."([^`]+?)"', r"`\1`.`\2`", query)
-        query = re.sub(r"'.*?'", replace_back_quotes_in_string, query)
+        # strings, comments and quoted names are what the user provided
+        def replace_quotes(match):
+            name = match.group("name")
+            return match.group() if name is None else f"`{name}`"
+
+        query = re.sub(
+            r"/\*.*?\*/|(?:--|# )[^\r\n]*|`[^`]*`|'(?:''|\\.|[^'\\])*'"
+            r'|"(?P<name>[^`"]+)"',
+            replace_quotes,
+            self._raw_query,
+            flags=re.DOTALL,
+        )
 
         return query
 
-- 
2.43.0


From 57d5fbfe1fd8b0106bda29b11e8e622cd571ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:56 +0000
Subject: [PATCH 060/104] fix: strings with quotes, and LIKE and lists in
 another spelling, were not generalized

---
 scheduler/compile/generalizator.py | 39 +++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/scheduler/compile/generalizator.py b/scheduler/compile/generalizator.py
index 24f6934..9e20797 100644
--- a/scheduler/compile/generalizator.py
+++ b/scheduler/compile/generalizator.py
@@ -3,6 +3,8 @@ Module used to produce generalized compile out of given query
 """
 import re
 import scheduler.compile.parse as sqlparse
+from scheduler.compile.parse.lexer import tokenize
+from scheduler.compile.parse.tokens import String
 
 
 class Generalizator:
@@ -24,9 +26,6 @@ class Generalizator:
         """
         sql = sql.replace("%", "")
 
-        # LIKE '%bot'
-        sql = re.sub(r"LIKE '[^\']+'", "LIKE X", sql)
-
         # or all_groups LIKE X or all_groups LIKE X
         matches = re.finditer(r"(or|and) [^\s]+ LIKE X", sql, flags=re.IGNORECASE)
         matches = [match.group(0) for match in matches] if matches else None
@@ -34,11 +33,25 @@ class Generalizator:
         if matches:
             for match in set(matches):
                 sql = re.sub(
-                    r"(\s?" + re.escape(match) + ")+", " " + match + " ...", sql
+                    r"(\s?" + re.escape(match) + r"(?: \.\.\.)?)+",
+                    " " + match + " ...",
+                    sql,
                 )
 
         return sql
 
+    @staticmethod
+    def _hide_strings(sql: str) -> str:
+        """
+        Replace string constants by X
+
+        :type sql str
+        :rtype: str
+        """
+        return "".join(
+            "X" if ttype is String.Single else value for ttype, value in tokenize(sql)
+        )
+
     @property
     def without_comments(self) -> str:
         """
@@ -63,30 +76,22 @@ class Generalizator:
 
         # MW comments
         # e.g. /* CategoryDataService::getMostVisited N.N.N.N */
-        sql = self.without_comments
+        # strings first, they can contain anything
+        sql = self._hide_strings(self.without_comments)
         sql = sql.replace('"', "")
 
-        # multiple spaces
-        sql = re.sub(r"\s{2,}", " ", sql)
+        # All newlines, tabs, etc replaced by single space
+        sql = re.sub(r"\s+", " ", sql)
 
         # handle LIKE statements
         sql = self._normalize_likes(sql)
 
-        sql = re.sub(r"\\\\", "", sql)
-        sql = re.sub(r"\\'", "", sql)
-        sql = re.sub(r'\\"', "", sql)
-        sql = re.sub(r"'[^\']*'", "X", sql)
-        sql = re.sub(r'"[^\"]*"', "X", sql)
-
-        # All newlines, tabs, etc replaced by single space
-        sql = re.sub(r"\s+", " ", sql)
-
         # All numbers => N
         sql = re.sub(r"-?[0-9]+", "N", sql)
 
         # WHERE foo IN ('880987','882618','708228','522330')
         sql = re.sub(
-            r" (IN|VALUES)\s*\([^,]+,[^)]+\)", " \\1 (XYZ)", sql, flags=re.IGNORECASE
+            r" (IN|VALUES)\s*\([^,()]+,[^()]+\)", " \\1 (XYZ)", sql, flags=re.IGNORECASE
         )
 
         return sql.strip()
-- 
2.43.0


From 07c5bd86512e353a76bb961ee9e843c0ff822de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:56 +0000
Subject: [PATCH 061/104] fix: removing comments removed the lines after them,
 and changed blanks in strings

---
 scheduler/compile/generalizator.py | 15 ++++++++++++---
 scheduler/compile/parser.py        |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/scheduler/compile/generalizator.py b/scheduler/compile/generalizator.py
index 9e20797..bb05d40 100644
--- a/scheduler/compile/generalizator.py
+++ b/scheduler/compile/generalizator.py
@@ -4,7 +4,7 @@ Module used to produce generalized compile out of given query
 import re
 import scheduler.compile.parse as sqlparse
 from scheduler.compile.parse.lexer import tokenize
-from scheduler.compile.parse.tokens import String
+from scheduler.compile.parse.tokens import String, Whitespace
 
 
 class Generalizator:
@@ -60,8 +60,17 @@ class Generalizator:
         :rtype: str
         """
         sql = sqlparse.format(self._raw_query, strip_comments=True)
-        sql = re.sub(r"\s{2,}", " ", sql)
-        return sql
+        parts = []
+        blanks = ""
+        for ttype, value in tokenize(sql):
+            if ttype in Whitespace:
+                blanks += value
+                continue
+            parts.append(" " if len(blanks) > 1 else blanks)
+            parts.append(value)
+            blanks = ""
+        parts.append(" " if len(blanks) > 1 else blanks)
+        return "".join(parts)
 
     @property
     def generalize(self) -> str:
diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 06b640b..5ef07d4 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -625,7 +625,7 @@ class Parser:  # pylint: disable=R0902
         """
         Removes comments from SQL query
         """
-        return Generalizator(self.query).without_comments
+        return Generalizator(self._query).without_comments
 
     @property
     def generalize(self) -> str:
-- 
2.43.0


From 47b604f5ef8b629b4fc3ac0b6fbb26525cc53175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:23 +0000
Subject: [PATCH 062/104] fix: jdbc_query runs the statement instead of taking
 it for a CREATE TABLE

---
 handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 2ec48d4..e279865 100644
--- a/handler.py
+++ b/handler.py
@@ -212,7 +212,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
     @run_on_executor
     def _post(self, *args, **kwargs):
         query_para = json.loads(self.request.body)
-        encrypted_columns = {}
+        encrypted_columns = None
         ciphertext = True
         if "create_table" in query_para.keys():
             query = query_para['create_table']
-- 
2.43.0


From 0626f70473a198e7c02ae3dac1f3ead74f8cf11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 063/104] fix: the columns reported for a nested select are
 those of the outer select only

---
 scheduler/handers/rewrite_hander.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index e02c663..4519fda 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -99,6 +99,7 @@ class Rewriter(Clause):
         source_json = copy.deepcopy(json)
         if isinstance(json, str):
             return self.db_meta[json]['anonymous']
+        selected = len(self.select.select_columns)
         for key in table_key:
             if key in json.keys():
                 table = json[key]
@@ -135,6 +136,10 @@ class Rewriter(Clause):
                 json = __inner__(json, key, func)
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
+        # the columns of an inner select are not columns of the answer
+        del self.select.select_columns[selected:]
+        del self.select.select_types[selected:]
+        del self.select.select_state[selected:]
         return json
 
 
-- 
2.43.0


From 7003163c0782725970d8a97ea3739809e5508da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 064/104] fix: answers with DECIMAL or date values are valid
 JSON, not a 404

---
 handler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/handler.py b/handler.py
index e279865..59cabad 100644
--- a/handler.py
+++ b/handler.py
@@ -35,6 +35,11 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
         db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
 
 
+def to_json(result):
+    # DECIMAL and date values have no JSON form of their own
+    return json.dumps(result, default=str)
+
+
 def test_connection(_db_conn):
     if config['meta']['type'] != 'mysql':
         return _db_conn
@@ -69,7 +74,7 @@ class BasePostRequestHandler(tornado.web.RequestHandler):
     def post(self, *args, **kwargs):
         try:
             result = yield self._post(*args, **kwargs)
-            self.write(result)
+            self.write(to_json(result) if isinstance(result, dict) else result)
         except HTTPError as e:
             self.write(e)
         except Exception as e:
@@ -299,7 +304,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
             format_row = {}
             for k, v in zip(order_columns, row):
                 format_row[k] = v
-            data.append(json.dumps(format_row))
+            data.append(to_json(format_row))
         format_res["data"] = "[" + ",".join(data) + "]"
         return format_res
 
@@ -722,7 +727,7 @@ class QueryComponentHandler(tornado.web.RequestHandler, ABC):
             format_row = {}
             for k, v in zip(order_columns, row):
                 format_row[k] = v
-            data.append(json.dumps(format_row))
+            data.append(to_json(format_row))
         format_res["data"] = "[" + ",".join(data) + "]"
         return format_res
 
-- 
2.43.0


From 2dabe47789aafc65f85cf029c55161be9c93f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 065/104] fix: the schema endpoint looks up tables by the
 database's name

---
 handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 59cabad..976a21e 100644
--- a/handler.py
+++ b/handler.py
@@ -754,7 +754,7 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
         db_info = cu.fetchall()
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
-            db = connection_url[13:]
+            db = connection_url[13:].split("/")[1]
             cu.execute(
                 "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
             self.write(self.format_result(cu.fetchall()))
-- 
2.43.0


From 8b1f577f758109e3b9b2a1c244d9974a26b4ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 066/104] fix: the schema endpoint lists columns of every type
 under their own name

---
 handler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/handler.py b/handler.py
index 976a21e..864e6af 100644
--- a/handler.py
+++ b/handler.py
@@ -789,6 +789,13 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
                         "dbType": "INT UNSIGNED",
                         "length": 20
                     }
+                else:
+                    format_col = {
+                        "name": key if value['plaintext'] else key + " *",
+                        "javaType": value['type'].upper(),
+                        "dbType": value['type'].upper(),
+                        "length": 258
+                    }
             if row[0] == table["name"]:
                 table["columns"].append(format_col)
             else:
-- 
2.43.0


From 145a64fbcd992acf04ab95ada81409e842bf5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 067/104] fix: jdbc_query keeps columns of the same name apart

---
 handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/handler.py b/handler.py
index 864e6af..9a627e7 100644
--- a/handler.py
+++ b/handler.py
@@ -289,6 +289,11 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
                       "error": None}
         order_columns = []
         for k, v in zip(*columns):
+            name, n = k, 1
+            while k in order_columns:
+                # a row is an object, columns of the same name must not hide each other
+                n += 1
+                k = "{}_{}".format(name, n)
             format_res['columns'].append(build_columns(k, v))
             order_columns.append(k)
         result = res["result"]
-- 
2.43.0


From 507370729071cf8d222f2091115b6c3fefda2839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 068/104] fix: component and schema URLs accept identifiers of
 more than one character

---
 service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/service.py b/service.py
index e8c765e..e905686 100644
--- a/service.py
+++ b/service.py
@@ -23,9 +23,9 @@ HANDLERS = [
             name=QueryHandler.__name__),
     URLSpec(r'/create_table', CreateHandler,
             name=CreateHandler.__name__),
-    URLSpec(r'/jdbc_query/component/?([?P<component_id>\w])?', QueryComponentHandler,
+    URLSpec(r'/jdbc_query/component/?(?P<component_id>\w+)?', QueryComponentHandler,
             name=QueryComponentHandler.__name__),
-    URLSpec(r'/jdbc_query/schema/?([?P<component_id>\w])?', SchemaHandler,
+    URLSpec(r'/jdbc_query/schema/?(?P<component_id>\w+)?', SchemaHandler,
             name=SchemaHandler.__name__),
     URLSpec(r'/encrypt_sql', EncryptSqlHandler,
             name=SchemaHandler.__name__),
-- 
2.43.0


From 1a6033693707449a47a0e4ca82b1f10d3ca6be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 069/104] fix: a statement for an unsupported data source is
 refused, not answered as if it had run

---
 handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/handler.py b/handler.py
index 9a627e7..e6424f8 100644
--- a/handler.py
+++ b/handler.py
@@ -265,7 +265,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
                 c_e.do_create()
                 return {}
         else:
-            return {}
+            raise Exception("Not support data source {}".format(jdbc))
 
     @gen.coroutine
     def post(self, *args, **kwargs):
@@ -372,7 +372,7 @@ class EncryptSqlHandler(tornado.web.RequestHandler, ABC):
             res = c_e.do_convert()
             return res
         else:
-            return {'encrypt_sql': ''}
+            raise Exception("Not support data source {}".format(jdbc))
 
     @gen.coroutine
     def post(self, *args, **kwargs):
@@ -583,7 +583,7 @@ class CreateHandler(tornado.web.RequestHandler, ABC):
             c_e.do_create()
             return {}
         else:
-            return {}
+            raise Exception("Not support data source {}".format(jdbc))
 
     @gen.coroutine
     def post(self, *args, **kwargs):
-- 
2.43.0


From a04297a6d8af2775de1f3b46cd52e4a1690c2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 070/104] fix: the schema of a database without tables is an
 empty list

---
 handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index e6424f8..2d83291 100644
--- a/handler.py
+++ b/handler.py
@@ -807,5 +807,6 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
                 res.append(json.dumps(table))
                 table = {"name": row[0], "type": "USER TABLE", "columns": []}
                 table["columns"].append(format_col)
-        res.append(json.dumps(table))
+        if table:
+            res.append(json.dumps(table))
         return "[" + ",".join(res) + "]"
-- 
2.43.0


From 94cd17156caa38e4e3252d5d7815c5f1b34833e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:43 +0000
Subject: [PATCH 071/104] fix: concurrent requests used one metadata connection
 at the same time

---
 handler.py | 66 +++++++++++++++++++++++-------------------------------
 1 file changed, 28 insertions(+), 38 deletions(-)

diff --git a/handler.py b/handler.py
index 2d83291..ed9aa20 100644
--- a/handler.py
+++ b/handler.py
@@ -3,6 +3,7 @@ import abc
 import json
 import logging
 import sqlite3
+import threading
 import yaml
 
 import tornado.web
@@ -17,6 +18,8 @@ from controller.rewriter import ControllerDatabase, ControllerRewriter, \
 
 NUMBER_OF_EXECUTOR = 100
 
+db_lock = threading.Lock()
+
 logging.basicConfig(level=logging.INFO, format='%(asctime)s - %(name)s - %(levelname)s - %(message)s')
 logger = logging.getLogger(__name__)
 
@@ -56,6 +59,19 @@ def test_connection(_db_conn):
     return _db_conn
 
 
+def query_meta(sql):
+    # the requests run in threads of their own, and this connection can only serve one at a time
+    global db_conn
+    with db_lock:
+        db_conn = test_connection(db_conn)
+        cu = db_conn.cursor()
+        cu.execute(sql)
+        rows = cu.fetchall()
+        db_conn.commit()
+        cu.close()
+    return rows
+
+
 class BasePostRequestHandler(tornado.web.RequestHandler):
 
     def set_default_headers(self):
@@ -230,13 +246,8 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
             data_source_id = query_para["jdbcDataSourceId"]
             ciphertext = query_para['ciphertext']
         query = query
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_meta("SELECT id, name, connection_url, driver_class_name, "
+                             "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -345,13 +356,8 @@ class EncryptSqlHandler(tornado.web.RequestHandler, ABC):
             query = query[:-1]
         data_source_id = query_para["jdbcDataSourceId"]
         query = query
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_meta("SELECT id, name, connection_url, driver_class_name, "
+                             "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -553,13 +559,8 @@ class CreateHandler(tornado.web.RequestHandler, ABC):
         data_source_id = query_para['selectedJdbcDataSource']['value']
         query, encrypted_columns = self.generate_table(query_para['dataSource'], query_para['count'],
                                                        query_para['table_name'])
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_meta("SELECT id, name, connection_url, driver_class_name, "
+                             "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -661,13 +662,8 @@ class QueryComponentHandler(tornado.web.RequestHandler, ABC):
     @run_on_executor
     def _post(self, component_id=None):
         query_para = json.loads(self.request.body)
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_meta("SELECT id, name, connection_url, driver_class_name, "
+                             "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -752,21 +748,15 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
 
     @run_on_executor
     def get(self, component_id=None):
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
-        db_info = cu.fetchall()
+        db_info = query_meta("SELECT id, name, connection_url, driver_class_name, "
+                             "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
             db = connection_url[13:].split("/")[1]
-            cu.execute(
-                "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
-            self.write(self.format_result(cu.fetchall()))
+            self.write(self.format_result(query_meta(
+                "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))))
         else:
             self.write({})
-        cx.commit()
-        cu.close()
 
     @staticmethod
     def format_result(tables_info):
-- 
2.43.0


From dd6e088b72003588c92f09e0eed82398bf904ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:01 +0000
Subject: [PATCH 072/104] fix: two definitions at a time wrote over one
 metadata connection

Delta.update_delta and delete_delta share a connection and the metadata
dictionary; the first table of two databases defined at once could be
lost from it.
---
 scheduler/schema/metadata.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 85e1e27..aaec5b9 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -115,23 +115,26 @@ class Delta(object):
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-        # update database meta
-        self.update_db_meta(db_name, table_meta)
-        if self.meta:
-            if db_name not in self.meta.keys():
-                self.meta.update({db_name: table_meta})
-            else:
-                self.meta[db_name].update(table_meta)
+        # one definition at a time: they share the connection and the metadata
+        with lock:
+            # update database meta
+            self.update_db_meta(db_name, table_meta)
+            if self.meta:
+                if db_name not in self.meta.keys():
+                    self.meta.update({db_name: table_meta})
+                else:
+                    self.meta[db_name].update(table_meta)
 
-        else:
-            Delta.meta = {
-                db_name: table_meta
-            }
-        return self.meta
+            else:
+                Delta.meta = {
+                    db_name: table_meta
+                }
+            return self.meta
 
     def delete_delta(self, db, table):
-        self.meta[db].pop(table, None)
-        self.write_db_meta(db, [table], [])
+        with lock:
+            self.meta[db].pop(table, None)
+            self.write_db_meta(db, [table], [])
 
     def update_db_meta(self, db_name, table_meta):
         rows = []
-- 
2.43.0


From b70f466243bb16eaac7080dd657a5e8b5fb247f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 073/104] fix: relative paths, and paths with dots in names,
 were cut or compared at the wrong dots

tail_field lost the escapes of the rest, split_field("..") gave an empty
name, concat_field kept a dot at the end, relative_field of an ancestor
went up once too often and startswith_field took an escaped dot for the
end of a name.
---
 dots/__init__.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/dots/__init__.py b/dots/__init__.py
index 171ffde..bece6c7 100644
--- a/dots/__init__.py
+++ b/dots/__init__.py
@@ -132,15 +132,11 @@ def tail_field(field):
     """
     if field == "." or field == None:
         return ".", "."
+    elif "\\." in field or "\b" in field:
+        path = split_field(field)
+        return path[0], join_field(path[1:])
     elif "." in field:
-        if "\\." in field:
-            path = field.replace("\\.", "\a").replace("\b", "\\.").split(".", 1)
-            if len(path) == 1:
-                return path[0].replace("\a", "."), "."
-            else:
-                return tuple(k.replace("\a", ".") for k in path)
-        else:
-            return field.split(".", 1)
+        return field.split(".", 1)
     else:
         return field, "."
 
@@ -155,6 +151,8 @@ def split_field(field):
         if field.startswith(".."):
             remainder = field.lstrip(".")
             back = len(field) - len(remainder) - 1
+            if not remainder:
+                return [-1] * back
             return [-1] * back + [
                 k.replace("\a", ".") for k in remainder.replace("\\.", "\a").replace("\b", "\\.").split(".")
             ]
@@ -197,7 +195,7 @@ def concat_field(prefix, suffix):
         back = len(suffix) - len(remainder) - 1
         prefix_path = split_field(prefix)
         if len(prefix_path) >= back:
-            return join_field(split_field(prefix)[:-back] + split_field(remainder))
+            return join_field(split_field(prefix)[:-back] + split_field(remainder or "."))
         else:
             return "." * (back - len(prefix_path)) + "." + remainder
     else:
@@ -219,10 +217,9 @@ def startswith_field(field, prefix):
         # else:
         #     return True
 
-    if field.startswith(prefix):
-        if len(field) == len(prefix) or field[len(prefix)] == ".":
-            return True
-    return False
+    # COMPARE NAMES, NOT TEXT: IN a\.b THE DOT IS PART OF THE NAME
+    prefix_path = split_field(prefix)
+    return split_field(field)[:len(prefix_path)] == prefix_path
 
 
 def relative_field(field, parent):
@@ -243,8 +240,7 @@ def relative_field(field, parent):
     if len(parent_path) == common:
         return join_field(field_path[common:])
     else:
-        dots = "." * (len(parent_path) - common)
-        return dots + "." + join_field(field_path[common:])
+        return join_field([-1] * (len(parent_path) - common) + field_path[common:])
 
 
 def hash_value(v):
-- 
2.43.0


From 9d2d1085a4b248e128f483e4f6d20e87f8a6f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 074/104] fix: values set through a path were lost or landed
 elsewhere

Null below a missing value took a name with dots as a path, a value
stored as None or popped could not be assigned below any more, and keys
with the escape for a backslash at the end of a name were taken as names.
---
 dots/datas.py | 52 +++++++++++++++++++++++++++++----------------------
 dots/nones.py |  2 +-
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/dots/datas.py b/dots/datas.py
index 6d84961..1f9b45c 100644
--- a/dots/datas.py
+++ b/dots/datas.py
@@ -110,16 +110,9 @@ class Data(object):
         key = text(key)
         d = _get(self, SLOT)
 
-        if key.find(".") >= 0:
-            seq = _split_field(key)
-            for n in seq:
-                if _get(d, CLASS) is NullType:
-                    d = NullType(d, n)  # OH DEAR, Null TREATS n AS PATH, NOT LITERAL
-                elif is_list(d):
-                    d = [_getdefault(dd, n) for dd in d]
-                else:
-                    d = _getdefault(d, n)  # EVERYTHING ELSE TREATS n AS LITERAL
-
+        if _is_path(key):
+            for n in _split_field(key):
+                d = _step(d, n)
             return to_data(d)
         else:
             o = d.get(key)
@@ -144,7 +137,7 @@ class Data(object):
         try:
             d = _get(self, SLOT)
             value = from_data(value)
-            if key.find(".") == -1:
+            if not _is_path(key):
                 if value is None:
                     d.pop(key, None)
                 else:
@@ -153,7 +146,7 @@ class Data(object):
 
             seq = _split_field(key)
             for k in seq[:-1]:
-                d = _getdefault(d, k)
+                d = _step(d, k)
             if value == None:
                 try:
                     d.pop(seq[-1], None)
@@ -284,7 +277,7 @@ class Data(object):
         v = self[key]
         if _get(v, CLASS) == NullType:
             if default is Null:
-                return NullType(self, key)
+                return v
             return default
         return v
 
@@ -316,15 +309,10 @@ class Data(object):
         key = text(key)
         d = _get(self, SLOT)
 
-        if key.find(".") >= 0:
+        if _is_path(key):
             seq = _split_field(key)
             for n in seq[:-1]:
-                if _get(d, CLASS) is NullType:
-                    d = NullType(d, n)  # OH DEAR, Null TREATS n AS PATH, NOT LITERAL
-                elif is_list(d):
-                    d = [_getdefault(dd, n) for dd in d]
-                else:
-                    d = _getdefault(d, n)  # EVERYTHING ELSE TREATS n AS LITERAL
+                d = _step(d, n)
             key = seq[-1]
 
         o = d.get(key)
@@ -333,7 +321,7 @@ class Data(object):
                 return NullType(d, key)
             return default
 
-        d[key] = None
+        d.pop(key)
         return to_data(o)
 
     def keys(self):
@@ -370,7 +358,7 @@ class Data(object):
         return to_data(deepcopy(d, memo))
 
     def __delitem__(self, key):
-        if key.find(".") == -1:
+        if not _is_path(key):
             d = _get(self, SLOT)
             d.pop(key, None)
             return
@@ -442,6 +430,26 @@ def _split_field(field):
     return [k.replace("\a", ".") for k in field.replace("\\.", "\a").replace("\b", "\\.").split(".")]
 
 
+def _is_path(key):
+    # \b STANDS FOR A DOT BEHIND A NAME THAT ENDS WITH BACKSLASH
+    return "." in key or "\b" in key
+
+
+def _step(d, name):
+    """
+    :param name: LITERAL, NOT A PATH
+    :return: WHAT d HOLDS UNDER name, A NullType THAT CAN BE ASSIGNED TO IF NOTHING
+    """
+    if _get(d, CLASS) is NullType:
+        return NullType(d, name)
+    if is_list(d):
+        return [_getdefault(dd, name) for dd in d]
+    value = _getdefault(d, name)
+    if value is None:
+        return NullType(d, name)
+    return value
+
+
 def _str(value, depth):
     """
     FOR DEBUGGING POSSIBLY RECURSIVE STRUCTURES
diff --git a/dots/nones.py b/dots/nones.py
index 7779d37..9dd4648 100644
--- a/dots/nones.py
+++ b/dots/nones.py
@@ -290,7 +290,7 @@ def _split_field(field):
     if field == ".":
         return []
     else:
-        return [k.replace("\a", ".") for k in field.replace("\\.", "\a".replace("\b", "\\.")).split(".")]
+        return [k.replace("\a", ".") for k in field.replace("\\.", "\a").replace("\b", "\\.").split(".")]
 
 
 def _setdefault(obj, key, value):
-- 
2.43.0


From ee8f0207db01275ecb1a62c5bef6b3224eb1c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 075/104] fix: leaves and leaves_to_data did not invert each
 other

for names ending with a backslash, and lists kept wrapped values.
---
 dots/__init__.py | 4 ++--
 dots/datas.py    | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dots/__init__.py b/dots/__init__.py
index bece6c7..03f16c6 100644
--- a/dots/__init__.py
+++ b/dots/__init__.py
@@ -619,7 +619,7 @@ def _leaves_to_data(value):
                 key = key.decode("utf8")
 
             d = output
-            if key.find(".") == -1:
+            if "." not in key and "\b" not in key:
                 if value is None:
                     d.pop(key, None)
                 else:
@@ -640,7 +640,7 @@ def _leaves_to_data(value):
     if hasattr(value, "__iter__"):
         output = []
         for v in value:
-            v = leaves_to_data(v)
+            v = _leaves_to_data(v)
             output.append(v)
         return output
     return value
diff --git a/dots/datas.py b/dots/datas.py
index 1f9b45c..998d1de 100644
--- a/dots/datas.py
+++ b/dots/datas.py
@@ -411,6 +411,9 @@ def leaves(value, prefix=None):
     :return: Data, WHICH EACH KEY BEING A PATH INTO value TREE
     """
     prefix = coalesce(prefix, "")
+    if prefix.endswith("\\."):
+        # THE LAST NAME OF THE PREFIX ENDS WITH BACKSLASH
+        prefix = prefix[:-2] + "\b"
     output = []
     for k, v in value.items():
         try:
-- 
2.43.0


From 588636ec6846fabb9b4dd7bdbfe07fbaf2a38639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 076/104] fix: merging data changed its operands or failed on
 scalars

a | b wrote into the mappings inside a and kept those of b, so that a | b | c
changed both; set_default took names with dots as paths, shared one copy
between two names and failed where a scalar met a mapping.
---
 dots/__init__.py |  9 ++++++---
 dots/datas.py    | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/dots/__init__.py b/dots/__init__.py
index 03f16c6..51f71f4 100644
--- a/dots/__init__.py
+++ b/dots/__init__.py
@@ -293,7 +293,7 @@ def _all_default(d, default, seen=None):
     for k, default_value in default.items():
         default_value = from_data(default_value)  # TWO DIFFERENT Dicts CAN SHARE id() BECAUSE THEY ARE SHORT LIVED
         if is_data(d):
-            existing_value = d.get(k)
+            existing_value = from_data(d).get(k)  # k IS A NAME, NOT A PATH
         else:
             existing_value = _get_attr(d, [k])
 
@@ -308,6 +308,8 @@ def _all_default(d, default, seen=None):
                         seen[id(default_value)] = copy_dict
                         _set_attr(d, [k], copy_dict)
                         _all_default(copy_dict, default_value, seen)
+                        # ONLY CYCLES SHARE, NOT TWO NAMES OF ONE VALUE
+                        del seen[id(default_value)]
                 else:
                     # ASSUME PRIMITIVE (OR LIST, WHICH WE DO NOT COPY)
                     try:
@@ -321,8 +323,8 @@ def _all_default(d, default, seen=None):
             _set_attr(d, [k], None)
             _set_attr(d, [k], listwrap(existing_value) + listwrap(default_value))
         elif (
-            hasattr(existing_value, "__setattr__")
-            or _get(existing_value, CLASS) in data_types
+            _get(existing_value, CLASS) in data_types
+            or not isinstance(existing_value, (bool, int, float, text, binary_type))
         ) and _get(default_value, CLASS) in data_types:
             df = seen.get(id(default_value))
             if df is not None:
@@ -330,6 +332,7 @@ def _all_default(d, default, seen=None):
             else:
                 seen[id(default_value)] = existing_value
                 _all_default(existing_value, default_value, seen)
+                del seen[id(default_value)]
 
 
 def _get_dict_default(obj, key):
diff --git a/dots/datas.py b/dots/datas.py
index 998d1de..48ce016 100644
--- a/dots/datas.py
+++ b/dots/datas.py
@@ -208,8 +208,7 @@ class Data(object):
         if not _get(other, CLASS) in data_types:
             get_logger().error("Expecting Data")
 
-        d = _get(self, SLOT)
-        output = Data(**d)  # COPY
+        output = dict_to_data(_copy_data(self))
         output.__ior__(other)
         return output
 
@@ -235,7 +234,9 @@ class Data(object):
 
             sv = d.get(ok)
             if sv == None:
-                d[ok] = ov
+                d[ok] = _copy_data(ov)
+            elif not is_data(ov):
+                continue  # THE FIRST VALUE COUNTS
             elif isinstance(sv, Data):
                 sv |= ov
             elif is_data(sv):
@@ -433,6 +434,16 @@ def _split_field(field):
     return [k.replace("\a", ".") for k in field.replace("\\.", "\a").replace("\b", "\\.").split(".")]
 
 
+def _copy_data(value):
+    """
+    COPY ALL MAPPINGS, NOTHING ELSE
+    """
+    value = from_data(value)
+    if is_data(value):
+        return {k: _copy_data(v) for k, v in value.items()}
+    return value
+
+
 def _is_path(key):
     # \b STANDS FOR A DOT BEHIND A NAME THAT ENDS WITH BACKSLASH
     return "." in key or "\b" in key
-- 
2.43.0


From fced678602fd681b8c0805d9a7d8b11bd0c78a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 077/104] fix: a FlatList made of a FlatList selected "list"
 from its items

---
 dots/lists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dots/lists.py b/dots/lists.py
index 6581039..eb1d404 100644
--- a/dots/lists.py
+++ b/dots/lists.py
@@ -43,7 +43,7 @@ class FlatList(object):
         if vals == None:
             _set(self, SLOT, [])
         elif vals.__class__ is FlatList:
-            _set(self, SLOT, vals.list)
+            _set(self, SLOT, _get(vals, SLOT))
         else:
             _set(self, SLOT, vals)
 
-- 
2.43.0


From f309279ecabefb6722e645fd5146fcfcdd7a1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 078/104] fix: a missing value was read as what another path
 holds, or failed

---
 dots/datas.py |  2 +-
 dots/nones.py | 16 ++++++----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/dots/datas.py b/dots/datas.py
index 48ce016..24d3f81 100644
--- a/dots/datas.py
+++ b/dots/datas.py
@@ -316,7 +316,7 @@ class Data(object):
                 d = _step(d, n)
             key = seq[-1]
 
-        o = d.get(key)
+        o = None if _get(d, CLASS) is NullType else d.get(key)
         if o == None:
             if default is Null:
                 return NullType(d, key)
diff --git a/dots/nones.py b/dots/nones.py
index 9dd4648..6de9395 100644
--- a/dots/nones.py
+++ b/dots/nones.py
@@ -11,7 +11,7 @@ from __future__ import absolute_import, division, unicode_literals
 
 from dots.lists import is_sequence
 from dots.utils import CLASS, KEY, SLOT
-from parsing_future import is_binary, text
+from parsing_future import is_binary, is_text, text
 from imports import expect, export
 
 to_data, null_types = expect("to_data", "null_types")
@@ -191,17 +191,13 @@ class NullType(object):
 
         o = to_data(_get(self, SLOT))
         k = _get(self, KEY)
-        if o == None:
+        if o == None or not hasattr(o, "get"):
             return NullType(self, key)
-        v = o.get(k)
-        if v == None:
+        # k IS A NAME, NOT A PATH
+        v = o.get(k.replace(".", "\\.") if is_text(k) else k)
+        if v == None or not hasattr(v, "get"):
             return NullType(self, key)
-        try:
-            return v.get(key)
-        except Exception as e:
-            from mo_logs import Log
-
-            Log.error("not expected", cause=e)
+        return v.get(key)
 
     def __setattr__(self, key, value):
         key = text(key)
-- 
2.43.0


From 141fa97327fc7ff7dae0d8d2ce55b37952ed9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 079/104] fix: one-letter caseless literals respected case,
 bounded CharsNotIn matched braces

---
 parsing/tokens.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsing/tokens.py b/parsing/tokens.py
index 11d63f3..b57c21d 100644
--- a/parsing/tokens.py
+++ b/parsing/tokens.py
@@ -123,7 +123,7 @@ class Literal(Token):
 
         if len(match) == 0:
             Log.error("Literal must be at least one character")
-        elif len(match) == 1:
+        elif len(match) == 1 and self.__class__ is Literal:
             self.__class__ = SingleCharLiteral
 
     def parse_impl(self, string, start, do_actions=True):
@@ -499,11 +499,11 @@ class CharsNotIn(Token):
             elif min == 1:
                 suffix = "+"
             else:
-                suffix = "{" + str(min) + ":}"
+                suffix = "{" + str(min) + ",}"
         elif min == 1 and max == 1:
             suffix = ""
         else:
-            suffix = "{" + str(min) + ":" + str(max) + "}"
+            suffix = "{" + str(min) + "," + str(max) + "}"
 
         self.set_config(
             regex=regex_compile(regex + suffix),
-- 
2.43.0


From e8538990313ec2ba8f56c4f2a2cfddb4ba3e13d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:40 +0000
Subject: [PATCH 080/104] fix: lookaheads with sequences, and groups behind
 forwards or regexes, were judged or nested wrongly

---
 parsing/enhancement.py | 47 +++++++++++++++++++++++++++++++++---------
 parsing/expressions.py |  1 +
 parsing/regex.py       |  5 +++++
 parsing/results.py     |  3 +++
 4 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index b3c4620..e4cc062 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -24,7 +24,18 @@ from parsing.utils import (
 from parsing.utils import MAX_INT, is_forward
 
 Word: object
-(Token, NoMatch, Literal, Keyword, Word, CharsNotIn, StringEnd, Empty, Char,) = expect(
+(
+    Token,
+    NoMatch,
+    Literal,
+    Keyword,
+    Word,
+    CharsNotIn,
+    StringEnd,
+    Empty,
+    Char,
+    MatchFirst,
+) = expect(
     "Token",
     "NoMatch",
     "Literal",
@@ -34,6 +45,7 @@ Word: object
     "StringEnd",
     "Empty",
     "Char",
+    "MatchFirst",
 )
 
 _get = object.__getattribute__
@@ -136,6 +148,17 @@ class LookAhead(ParseEnhancement):
 FollowedBy = LookAhead
 
 
+def _is_token(expr):
+    """
+    :return: True IF expr IS A TOKEN, OR A CHOICE OF TOKENS, WITHOUT PARSE ACTIONS
+    """
+    if expr.parse_action:
+        return False
+    if isinstance(expr, Token):
+        return True
+    return isinstance(expr, MatchFirst) and all(_is_token(e) for e in expr.exprs)
+
+
 class NotAny(LookAhead):
     """
     Lookahead to disallow matching with the given parse expression.
@@ -147,11 +170,15 @@ class NotAny(LookAhead):
 
     def __init__(self, expr):
         super(NotAny, self).__init__(expr)
-        prec, pattern = self.expr.__regex__()
-        try:
-            self.regex = regex_compile(f"(?!{pattern})")
-        except Exception as c:
-            self.regex = None
+        self.regex = None
+        if _is_token(self.expr):
+            # SEQUENCES AND REPETITIONS CAN NOT BE TESTED THIS WAY: A REGEX WILL
+            # BACKTRACK, AND DOES NOT KNOW WHITESPACE
+            prec, pattern = self.expr.__regex__()
+            try:
+                self.regex = regex_compile(f"(?!{pattern})")
+            except Exception as c:
+                self.regex = None
 
     def copy(self):
         output = ParseEnhancement.copy(self)
@@ -167,10 +194,10 @@ class NotAny(LookAhead):
             raise ParseException(self, start, string)
         else:
             try:
-                self.expr.parse(string, start, do_actions=True)
-                raise ParseException(self, start, string)
-            except:
+                self.expr._parse(string, start, do_actions)
+            except ParseException:
                 return ParseResults(self, start, start, [], [])
+            raise ParseException(self, start, string)
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
@@ -189,7 +216,7 @@ class NotAny(LookAhead):
         return 0
 
     def __regex__(self):
-        return "*", self.regex.pattern
+        return "*", f"(?!{self.expr.__regex__()[1]})"
 
     def __str__(self):
         if self.parser_name:
diff --git a/parsing/expressions.py b/parsing/expressions.py
index aeeaf18..16c9136 100644
--- a/parsing/expressions.py
+++ b/parsing/expressions.py
@@ -834,4 +834,5 @@ export("parsing.core", And)
 export("parsing.core", Or)
 export("parsing.core", MatchAll)
 export("parsing.core", MatchFirst)
+export("parsing.enhancement", MatchFirst)
 export("parsing.exceptions", MatchFirst)
diff --git a/parsing/regex.py b/parsing/regex.py
index 1782e06..ea42ec3 100644
--- a/parsing/regex.py
+++ b/parsing/regex.py
@@ -334,6 +334,11 @@ class Regex(ParseEnhancement):
 
             return self / pf
 
+    @property
+    def whitespace(self):
+        # A TOKEN: THE WHITESPACE OF THE PATTERN IS NOT THAT OF THE GRAMMAR
+        return None
+
     def parse_impl(self, string, start, do_actions=True):
         found = self.regex.match(string, start)
         if found:
diff --git a/parsing/results.py b/parsing/results.py
index 21046a9..91edca6 100644
--- a/parsing/results.py
+++ b/parsing/results.py
@@ -296,6 +296,9 @@ class ParseResults(object):
 
             if isinstance(obj, Annotation):
                 return []
+            elif isinstance(obj, ForwardResults):
+                # STANDS FOR ITS ONLY TOKEN, WHICH WILL DO ITS OWN GROUPING
+                return internal(obj.tokens[0], depth + 1)
             elif isinstance(obj, ParseResults):
                 output = []
                 for t in obj.tokens:
-- 
2.43.0


From 87879a7973317f22036bad131156c6ad64376d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:40 +0000
Subject: [PATCH 081/104] fix: only the first of several ignored expressions
 was ignored

---
 parsing/whitespaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsing/whitespaces.py b/parsing/whitespaces.py
index e32cbcd..3cc731e 100644
--- a/parsing/whitespaces.py
+++ b/parsing/whitespaces.py
@@ -120,10 +120,10 @@ class Whitespace(ParserElement):
         for ignore_expr in ignore_exprs:
             ignore_expr = ignore_expr.suppress()
             self.ignore_list.append(ignore_expr)
-            self.content = None
-            self.expr = None if isinstance(Empty, Expecting) else Empty()
-            self.regex = re.compile(self.__regex__()[1], re.DOTALL)
-            return self
+        self.content = None
+        self.expr = None if isinstance(Empty, Expecting) else Empty()
+        self.regex = re.compile(self.__regex__()[1], re.DOTALL)
+        return self
 
     def backup(self):
         return Backup(self)
-- 
2.43.0


From 5c03e4c1d7330bbab60fceeaba543de37e3b188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:50 +0000
Subject: [PATCH 082/104] fix: repetitions of what gives no tokens were not
 counted, or never ended

---
 parsing/enhancement.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index e4cc062..fc8afbe 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -276,12 +276,13 @@ class Many(ParseEnhancement):
     def parse_impl(self, string, start, do_actions=True):
         acc = []
         end = index = start
+        min = self.parser_config.min_match
         max = self.parser_config.max_match
         stopper = self.parser_config.end
         count = 0
         failures = []
         try:
-            while end < len(string) and count < max:
+            while count < max and (end < len(string) or count < min):
                 if end > index:
                     if isinstance(self.expr, LookBehind):
                         index = end
@@ -296,10 +297,15 @@ class Many(ParseEnhancement):
                                 self, end, string, msg="found stopper too soon"
                             )
                 result = self.expr._parse(string, index, do_actions)
-                end = result.end
                 if result:
                     acc.append(result)
-                    count += 1
+                count += 1
+                if result.end <= index:
+                    # NOTHING CONSUMED, IT CAN BE MATCHED HERE ANY NUMBER OF TIMES
+                    if count < min:
+                        count = min
+                    break
+                end = result.end
         except ParseException as cause:
             if self.parser_config.min_match <= count <= max:
                 failures.append(cause)
@@ -318,7 +324,7 @@ class Many(ParseEnhancement):
             ):
                 raise ParseException(
                     self,
-                    acc[0].start,
+                    acc[0].start if acc else start,
                     string,
                     msg=(
                         f"Expecting between {self.parser_config.min_match} and"
@@ -326,7 +332,9 @@ class Many(ParseEnhancement):
                     ),
                 )
             else:
-                return ParseResults(self, acc[0].start, acc[-1].end, acc, failures)
+                return ParseResults(
+                    self, acc[0].start if acc else start, end, acc, failures
+                )
         else:
             if not self.parser_config.min_match:
                 return ParseResults(self, start, start, [], failures)
-- 
2.43.0


From f0644e972be684249d801044d643602c97698b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 083/104] fix: Combine ignored the parse actions of what it
 combines, stop_on a caseless literal respected case

---
 parsing/enhancement.py | 2 +-
 parsing/tokens.py      | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index fc8afbe..7deec25 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -785,7 +785,7 @@ class Combine(TokenConverter):
         self.set_config(separator=separator)
 
     def parse_impl(self, string, start, do_actions=True):
-        result = self.expr.parse_impl(string, start, do_actions=do_actions)
+        result = self.expr._parse(string, start, do_actions=do_actions)
         output = ParseResults(
             self,
             start,
diff --git a/parsing/tokens.py b/parsing/tokens.py
index b57c21d..ce114e9 100644
--- a/parsing/tokens.py
+++ b/parsing/tokens.py
@@ -267,6 +267,9 @@ class CaselessLiteral(Literal):
     def reverse(self):
         return CaselessLiteral(self.parser_config.match[::-1])
 
+    def __regex__(self):
+        return "+", self.parser_config.regex.pattern
+
 
 class CloseMatch(Token):
     """
-- 
2.43.0


From 039aaacd0849fbbbd58f5a35ef635ab1680b2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:49 +0000
Subject: [PATCH 084/104] fix: alternatives were skipped or reordered by the
 lookup of their first letters

---
 parsing/enhancement.py | 14 ++++++++++++++
 parsing/expressions.py | 39 +++++++++++++++------------------------
 parsing/tokens.py      |  6 ++++--
 3 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index 7deec25..1c1fb84 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -258,6 +258,12 @@ class Many(ParseEnhancement):
         )
         self.stop_on(stop_on)
 
+    def expecting(self):
+        if not self.min_length():
+            # CAN MATCH NOTHING, SO ANYTHING CAN FOLLOW
+            return {}
+        return ParseEnhancement.expecting(self)
+
     def stop_on(self, ender):
         if ender:
             end = self.parser_config.whitespace.normalize(ender)
@@ -533,6 +539,10 @@ class SkipTo(ParseEnhancement):
         )
         self.parser_name = str(self)
 
+    def expecting(self):
+        # ANYTHING CAN BE SKIPPED
+        return {}
+
     def min_length(self):
         return 0
 
@@ -950,6 +960,10 @@ class PrecededBy(LookAhead):
         else:
             self.set_config(retreat=expr.min_length(), exact=False)
 
+    def expecting(self):
+        # LOOKS BACK, SO ANYTHING CAN FOLLOW
+        return {}
+
     def parse_impl(self, string, start=0, do_actions=True):
         if self.parser_config.exact:
             loc = start - self.parser_config.retreat
diff --git a/parsing/expressions.py b/parsing/expressions.py
index 16c9136..45701c6 100644
--- a/parsing/expressions.py
+++ b/parsing/expressions.py
@@ -53,22 +53,13 @@ class ParseExpression(ParserElement):
 
     def expecting(self):
         output = OrderedDict()
-        if not self.is_annotated():
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, ee in expect.items():
-                    output.setdefault(k, []).extend(ee)
-        else:
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, _ in expect.items():
-                    output[k] = [self]
+        for e in self.exprs:
+            expect = e.expecting()
+            if not expect:
+                # NOT SURE WHAT THIS IS EXPECTING, BAIL
+                return {}
+            for k in expect.keys():
+                output[k] = [self]
         return output
 
     def copy(self):
@@ -102,11 +93,6 @@ class ParseExpression(ParserElement):
         acc = []
         same = True
         clazz = self.__class__
-        if clazz == Or:
-            clazz = (
-                Or,
-                MatchFirst,
-            )  # TODO: not correct, but allows merging of the two to a single longer list
         for e in self.exprs:
             f = e.streamline()
             same = same and f is e
@@ -633,10 +619,10 @@ class Fast(ParserElement):
 
         all_keys = set()
         lookup = OrderedDict()
-        for m in maps:
+        for i, m in enumerate(maps):
             for k, ee in m.items():
                 all_keys.add(k)
-                lookup.setdefault(k, []).extend(ee)
+                lookup.setdefault(k, []).extend((i, e) for e in ee)
 
         # patterns must be mutually exclusive to work
         items = list(lookup.items())
@@ -657,7 +643,12 @@ class Fast(ParserElement):
                     acc.extend(ee)
                     ee.clear()
             if acc:
-                compact.append((min_k, acc))
+                # KEEP THE ORDER OF THE ALTERNATIVES
+                ordered = []
+                for _, e in sorted(acc, key=itemgetter(0)):
+                    if e not in ordered:
+                        ordered.append(e)
+                compact.append((min_k, ordered))
         if len(maps) - max(len(v) for k, v in compact) < LOOKUP_COST:
             Log.error("not useful")
 
diff --git a/parsing/tokens.py b/parsing/tokens.py
index ce114e9..efc8dcb 100644
--- a/parsing/tokens.py
+++ b/parsing/tokens.py
@@ -363,6 +363,8 @@ class Word(Token):
 
         if body_chars == init_chars:
             prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
+        elif max == 1:
+            prec, regexp = Char(init_chars, exclude=exclude).__regex__()
         elif max is None or max == MAX_INT:
             prec, regexp = (
                 Char(init_chars, exclude=exclude)
@@ -397,7 +399,7 @@ class Word(Token):
 
     def expecting(self):
         if len(self.parser_config.init_chars) < 11:
-            return {c: [self] for c in self.parser_config.init_chars}
+            return {c.lower(): [self] for c in self.parser_config.init_chars}
         else:
             return {}
 
@@ -446,7 +448,7 @@ class Char(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {c: [self] for c in self.parser_config.include}
+        return {c.lower(): [self] for c in self.parser_config.include}
 
     def min_length(self):
         return 1
-- 
2.43.0


From 00d58b8eda0a9f2319af72ff45e452b0bd166f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:49 +0000
Subject: [PATCH 085/104] fix: empty groups were dropped from repetitions

---
 parsing/enhancement.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index 1c1fb84..0beb977 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -303,8 +303,7 @@ class Many(ParseEnhancement):
                                 self, end, string, msg="found stopper too soon"
                             )
                 result = self.expr._parse(string, index, do_actions)
-                if result:
-                    acc.append(result)
+                acc.append(result)
                 count += 1
                 if result.end <= index:
                     # NOTHING CONSUMED, IT CAN BE MATCHED HERE ANY NUMBER OF TIMES
-- 
2.43.0


From 64ec73961cafe0aeb1c65a39062d5dead95a6a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:32 +0000
Subject: [PATCH 086/104] fix: SkipTo matched up to what it must fail on

---
 parsing/enhancement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index 0beb977..a3a75e6 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -563,12 +563,13 @@ class SkipTo(ParseEnhancement):
             skip_end = loc
             loc = before_end = self.parser_config.whitespace.skip(string, loc)
             if fail:
-                # break if fail_on expression matches
                 try:
                     fail._parse(string, loc)
-                    break
-                except:
+                except ParseException:
                     pass
+                else:
+                    # fail_on expression matches
+                    raise ParseException(self, start, string)
 
             if ignore:
                 # advance past ignore expressions
-- 
2.43.0


From dff1166ca6ed8cc6facd49bfe4fd648dda02e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:40 +0000
Subject: [PATCH 087/104] fix: regular expressions of repetitions, and
 operators next to other operators

---
 parsing/enhancement.py | 9 +++++----
 parsing/infix.py       | 8 ++++++--
 parsing/tokens.py      | 2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index a3a75e6..aea8cf3 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -381,6 +381,9 @@ class Many(ParseEnhancement):
         end = self.parser_config.end.pattern if self.parser_config.end else None
         prec, regex = self.expr.__regex__()
         regex = regex_iso(prec, regex, "*")
+        if end:
+            # THE END IS NOT PART OF THE MATCH
+            regex = f"(?:(?!{end}){regex})"
 
         if self.parser_config.max_match == MAX_INT:
             if self.parser_config.min_match == 0:
@@ -403,10 +406,8 @@ class Many(ParseEnhancement):
                 + "}"
             )
 
-        if end:
-            return "+", regex + suffix + end
-        else:
-            return "*", regex + suffix
+        # "+" BECAUSE THE SUFFIX CAN NOT BE REPEATED WITHOUT BRACKETS
+        return "+", regex + suffix
 
     def __call__(self, name):
         if not name:
diff --git a/parsing/infix.py b/parsing/infix.py
index 5724213..62dbe1d 100644
--- a/parsing/infix.py
+++ b/parsing/infix.py
@@ -290,7 +290,7 @@ def infix_notation(
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == op and is_operand(flat_tokens[i]):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -310,7 +310,11 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op and is_operand(flat_tokens[i + 2]):
+                    if (
+                        o == op
+                        and is_operand(flat_tokens[i])
+                        and is_operand(flat_tokens[i + 2])
+                    ):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
diff --git a/parsing/tokens.py b/parsing/tokens.py
index efc8dcb..7012208 100644
--- a/parsing/tokens.py
+++ b/parsing/tokens.py
@@ -532,7 +532,7 @@ class CharsNotIn(Token):
         return self
 
     def __regex__(self):
-        return "*", self.parser_config.regex.pattern
+        return "+", self.parser_config.regex.pattern
 
     def __str__(self):
         return self.parser_config.regex.pattern
-- 
2.43.0


From a9bd32688e31effc4d2addec5560b74918154c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:12 +0000
Subject: [PATCH 088/104] fix: StringStart and White failed instead of matching

---
 parsing/enhancement.py | 2 +-
 parsing/tokens.py      | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/parsing/enhancement.py b/parsing/enhancement.py
index aea8cf3..edd02e6 100644
--- a/parsing/enhancement.py
+++ b/parsing/enhancement.py
@@ -174,8 +174,8 @@ class NotAny(LookAhead):
         if _is_token(self.expr):
             # SEQUENCES AND REPETITIONS CAN NOT BE TESTED THIS WAY: A REGEX WILL
             # BACKTRACK, AND DOES NOT KNOW WHITESPACE
-            prec, pattern = self.expr.__regex__()
             try:
+                prec, pattern = self.expr.__regex__()
                 self.regex = regex_compile(f"(?!{pattern})")
             except Exception as c:
                 self.regex = None
diff --git a/parsing/tokens.py b/parsing/tokens.py
index 7012208..e39ea8f 100644
--- a/parsing/tokens.py
+++ b/parsing/tokens.py
@@ -590,7 +590,10 @@ class White(Token):
         self.set_config(min_len=min, max_len=max, white_chars=white_chars)
 
     def parse_impl(self, string, start, do_actions=True):
-        if string[start] not in self.parser_config.white_chars:
+        if (
+            start >= len(string)
+            or string[start] not in self.parser_config.white_chars
+        ):
             raise ParseException(self, start, string)
         end = start
         end += 1
@@ -603,7 +606,7 @@ class White(Token):
             raise ParseException(self, end, string)
 
         return ParseResults(
-            self, start, end, string[start:end], [ParseException(self, end, string)]
+            self, start, end, [string[start:end]], [ParseException(self, end, string)]
         )
 
     def reverse(self):
@@ -687,7 +690,7 @@ class StringStart(Token):
             # see if entire string up to here is just whitespace and ignoreables
             # if loc != self.whitespace.skip(string, 0):
             raise ParseException(self, loc, string)
-        return []
+        return ParseResults(self, loc, loc, [], [])
 
     def min_length(self):
         return 0
-- 
2.43.0


From d253e7b3b7550fc584c207517972ed7a64e83b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:12 +0000
Subject: [PATCH 089/104] fix: optional parts at the start of a & b & c had to
 be found

---
 parsing/expressions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parsing/expressions.py b/parsing/expressions.py
index 45701c6..d7e715b 100644
--- a/parsing/expressions.py
+++ b/parsing/expressions.py
@@ -736,6 +736,14 @@ class MatchAll(ParseExpression):
         )
         return output
 
+    def __and__(self, other):
+        whitespace = self.parser_config.whitespace
+        if self.is_annotated() or whitespace is not whitespaces.CURRENT:
+            return ParseExpression.__and__(self, other)
+
+        # a & b & c IS ANY ORDER OF THE THREE
+        return MatchAll(self.exprs + [whitespaces.CURRENT.normalize(other)], whitespace)
+
     def _min_length(self):
         # TODO: MAY BE TOO CONSERVATIVE, WE MAY BE ABLE TO PROVE self CAN CONSUME A CHARACTER
         return min(e.min_length() for e in self.exprs)
-- 
2.43.0


From e03ae0c4018fd9f89e4ecaa4a26a641b992d7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:15 +0000
Subject: [PATCH 090/104] fix: no whitespace was skipped after a lookbehind

---
 parsing/expressions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parsing/expressions.py b/parsing/expressions.py
index d7e715b..d05dd67 100644
--- a/parsing/expressions.py
+++ b/parsing/expressions.py
@@ -243,16 +243,18 @@ class And(ParseExpression):
         acc = []
         failures = []
         for i, expr in enumerate(self.exprs):
-            if end > index:
-                if isinstance(expr, LookBehind):
-                    index = end
-                else:
+            if isinstance(expr, LookBehind):
+                # LOOKS AT WHAT HAS JUST BEEN MATCHED, WHITESPACE IS STILL TO BE SKIPPED
+                loc = end
+            else:
+                if end > index:
                     index = self.parser_config.whitespace.skip(string, end)
+                loc = index
             if isinstance(expr, And.SyntaxErrorGuard):
                 encountered_syntax_error = True
                 continue
             try:
-                result = expr._parse(string, index, do_actions)
+                result = expr._parse(string, loc, do_actions)
                 acc.append(result)
 
                 end = result.end
-- 
2.43.0


From 92673c174c38943c22c0e2ff9f3735da9ae0357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:38 +0000
Subject: [PATCH 091/104] fix: error recovery of a generated parser ends when
 the initial state has a default reduction

---
 scheduler/lex_module/ply/yacc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/lex_module/ply/yacc.py b/scheduler/lex_module/ply/yacc.py
index eb9161e..08c34f0 100644
--- a/scheduler/lex_module/ply/yacc.py
+++ b/scheduler/lex_module/ply/yacc.py
@@ -332,7 +332,9 @@ class LRParser:
             if debug:
                 debug.debug('State  : %s', state)
 
-            if state not in defaulted_states:
+            # An error symbol is always looked up: a reduction made without looking
+            # would put back the states that the recovery has just removed.
+            if state not in defaulted_states or (lookahead and lookahead.type == 'error'):
                 if not lookahead:
                     if not lookaheadstack:
                         lookahead = get_token()  # Get the next token
-- 
2.43.0


From 5c7175276bdfa593eafda31f5f5f13e19c1519f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:28 +0000
Subject: [PATCH 092/104] fix: a state whose only action is removed by nonassoc
 no longer breaks building the parser

---
 scheduler/lex_module/ply/yacc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/lex_module/ply/yacc.py b/scheduler/lex_module/ply/yacc.py
index 08c34f0..a25e14e 100644
--- a/scheduler/lex_module/ply/yacc.py
+++ b/scheduler/lex_module/ply/yacc.py
@@ -264,7 +264,7 @@ class LRParser:
         self.defaulted_states = {}
         for state, actions in self.action.items():
             rules = list(actions.values())
-            if len(rules) == 1 and rules[0] < 0:
+            if len(rules) == 1 and rules[0] is not None and rules[0] < 0:
                 self.defaulted_states[state] = rules[0]
 
     def disable_defaulted_states(self):
-- 
2.43.0


From 036bba9bafdc9cb8982759103692c41da29ec6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:52 +0000
Subject: [PATCH 093/104] fix: nonassoc also holds when several rules go on
 with the operator

---
 scheduler/lex_module/ply/yacc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheduler/lex_module/ply/yacc.py b/scheduler/lex_module/ply/yacc.py
index a25e14e..8386c2d 100644
--- a/scheduler/lex_module/ply/yacc.py
+++ b/scheduler/lex_module/ply/yacc.py
@@ -1897,7 +1897,8 @@ class LRTable:
 
                                 else:
                                     raise LALRError('Unknown conflict in state %d' % st)
-                            else:
+                            elif a not in st_action:
+                                # (a token that nonassoc has removed stays removed)
                                 st_action[a] = j
                                 st_actionp[a] = p
 
-- 
2.43.0


From 058aad4672165014e99170f263e749192fd405fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:16 +0000
Subject: [PATCH 094/104] fix: a cloned lexer has its own stack of states

---
 scheduler/lex_module/ply/lex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheduler/lex_module/ply/lex.py b/scheduler/lex_module/ply/lex.py
index ca21d69..4e1f93a 100644
--- a/scheduler/lex_module/ply/lex.py
+++ b/scheduler/lex_module/ply/lex.py
@@ -121,6 +121,7 @@ class Lexer:
 
     def clone(self, object=None):
         c = copy.copy(self)
+        c.lexstatestack = self.lexstatestack[:]   # each has its own stack of states
 
         # If the object parameter has been supplied, it means we are attaching the
         # lexer to a new object.  In this case, we have to rebind all methods in
-- 
2.43.0


From 5591f9417ac7bd31a240faac55965cb26a09b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:16 +0000
Subject: [PATCH 095/104] fix: an error rule of a lexer that changes the state
 also changes the ignored characters

---
 scheduler/lex_module/ply/lex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheduler/lex_module/ply/lex.py b/scheduler/lex_module/ply/lex.py
index 4e1f93a..5a1700f 100644
--- a/scheduler/lex_module/ply/lex.py
+++ b/scheduler/lex_module/ply/lex.py
@@ -281,6 +281,7 @@ class Lexer:
                                        lexdata[lexpos:])
                     lexpos = self.lexpos
                     if not newtok:
+                        lexignore = self.lexignore      # in case there was a state change
                         continue
                     return newtok
 
-- 
2.43.0


From 6abb99af99fdadec6e50d7bf71407cd807d72e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 096/104] fix: a SyntaxError raised in a rule that is reduced
 without lookahead no longer ends the input

---
 scheduler/lex_module/ply/yacc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scheduler/lex_module/ply/yacc.py b/scheduler/lex_module/ply/yacc.py
index 8386c2d..0c9917a 100644
--- a/scheduler/lex_module/ply/yacc.py
+++ b/scheduler/lex_module/ply/yacc.py
@@ -425,7 +425,8 @@ class LRParser:
                             statestack.append(state)
                         except SyntaxError:
                             # If an error was set. Enter error recovery state
-                            lookaheadstack.append(lookahead)  # Save the current lookahead token
+                            if lookahead is not None:
+                                lookaheadstack.append(lookahead)  # Save the current lookahead token
                             symstack.extend(targ[1:-1])  # Put the production slice back on the stack
                             statestack.pop()  # Pop back one state (before the reduce)
                             state = statestack[-1]
@@ -463,7 +464,8 @@ class LRParser:
                             statestack.append(state)
                         except SyntaxError:
                             # If an error was set. Enter error recovery state
-                            lookaheadstack.append(lookahead)  # Save the current lookahead token
+                            if lookahead is not None:
+                                lookaheadstack.append(lookahead)  # Save the current lookahead token
                             statestack.pop()  # Pop back one state (before the reduce)
                             state = statestack[-1]
                             sym.type = 'error'
-- 
2.43.0


From a425a43e92f44c760ab30e55dcc196373277cfb9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:20:12 +0000
Subject: [PATCH 097/104] fix: the lookaheads of the LALR tables are exact:
 only an item with the dot at its start begins a transition's productions

---
 scheduler/lex_module/ply/yacc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/lex_module/ply/yacc.py b/scheduler/lex_module/ply/yacc.py
index 0c9917a..29f57e8 100644
--- a/scheduler/lex_module/ply/yacc.py
+++ b/scheduler/lex_module/ply/yacc.py
@@ -1614,7 +1614,7 @@ class LRTable:
             lookb = []
             includes = []
             for p in C[state]:
-                if p.name != N:
+                if p.name != N or p.lr_index:
                     continue
 
                 # Okay, we have a name match.  We now follow the production all the way
-- 
2.43.0


From 1eab15b2ced861cbac1a6662aa4cc306e08f7d4b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:29:01 +0000
Subject: [PATCH 098/104] fix: LIMIT 0 and FETCH after a set operation are kept
 by the SQL parser

---
 sql_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 2167fed..84c7475 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -510,7 +510,7 @@ def to_union_call(tokens):
                 acc = {op: [acc, so]}
             last_union = op
 
-        if not tokens["orderby"] and not tokens["offset"] and not tokens["limit"]:
+        if not {"orderby", "limit", "offset", "fetch"} & set(tokens.keys()):
             return acc
         else:
             output = {"from": acc}
-- 
2.43.0


From 5b62c00a67fa439445af00c5cc99cf657dc91518 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:29:01 +0000
Subject: [PATCH 099/104] fix: the formatter keeps a join condition of 0 or
 FALSE and a type length of 0

---
 sql_parsing/formatting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index d18aa68..e30d1c7 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -389,7 +389,7 @@ class Formatter:
         expr, type = json
 
         type_name, params = first(type.items())
-        if not params:
+        if params == {}:
             type = type_name.upper()
         else:
             type = {type_name.upper(): params}
@@ -485,10 +485,10 @@ class Formatter:
         acc.append(join_keyword.upper())
         acc.append(self.dispatch(json[join_keyword], precedence["join"]))
 
-        if json.get("on"):
+        if "on" in json:
             acc.append("ON")
             acc.append(self.dispatch(json["on"]))
-        if json.get("using"):
+        if "using" in json:
             acc.append("USING")
             acc.append(self.sql_list(listwrap(json["using"])))
         return " ".join(acc)
-- 
2.43.0


From 3fd58b471c511088cc7137990777e6d5c42f2f55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:46:17 +0000
Subject: [PATCH 100/104] fix: a window keeps its PARTITION BY list, RANGE
 frame, lone frame, FILTER and WITHIN GROUP

---
 sql_parsing/formatting.py | 15 +++++++++++++--
 sql_parsing/utils.py      |  2 ++
 sql_parsing/windows.py    |  9 ++++++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index e30d1c7..f3415a9 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -231,13 +231,19 @@ class Formatter:
 
     def value(self, json, prec=precedence["from"]):
         parts = [self.expression(json["value"], prec)]
+        if "filter" in json:
+            parts.append(f"FILTER (WHERE {self.expression(json['filter'])})")
+        if "within" in json:
+            parts.append(f"WITHIN GROUP ({self.orderby(json['within'], precedence['window'])})")
         if "over" in json:
             over = json["over"]
             parts.append("OVER")
             window = []
             if "partitionby" in over:
                 window.append("PARTITION BY")
-                window.append(self.dispatch(over["partitionby"]))
+                window.append(", ".join(
+                    self.expression(p) for p in listwrap(over["partitionby"])
+                ))
             if "orderby" in over:
                 window.append(self.orderby(over, precedence["window"]))
             if "range" in over:
@@ -247,14 +253,19 @@ class Formatter:
                         return f"UNBOUNDED {unbounded}"
                     elif v == 0:
                         return "CURRENT ROW"
+                    elif isinstance(v, dict) and "neg" in v:
+                        return f"{self.dispatch(v['neg'])} PRECEDING"
+                    elif isinstance(v, dict):
+                        return f"{self.dispatch(v)} FOLLOWING"
                     elif v < 0:
                         return f"{text(-v)} PRECEDING"
                     else:
                         return f"{text(v)} FOLLOWING"
 
                 range = over["range"]
+                unit = range.get("unit", "rows").upper()
                 window.append(
-                    f"ROWS BETWEEN {bound(range.get('min'), 'PRECEDING')} AND"
+                    f"{unit} BETWEEN {bound(range.get('min'), 'PRECEDING')} AND"
                     f" {bound(range.get('max'), 'FOLLOWING')}"
                 )
 
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 84c7475..5e8e882 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -386,6 +386,8 @@ def to_expression_call(tokens):
 def to_over(tokens):
     if not tokens:
         return {}
+    if set(tokens.keys()) == {"range"}:
+        return {"range": tokens["range"]}
 
 
 def to_alias(tokens):
diff --git a/sql_parsing/windows.py b/sql_parsing/windows.py
index a4f32fe..b1a254b 100644
--- a/sql_parsing/windows.py
+++ b/sql_parsing/windows.py
@@ -35,8 +35,6 @@ def _to_bound_call(tokens):
     else:  # following
         if limit == "unbounded":
             return {"min": 0}
-        elif is_data(limit):
-            return {"min": {"neg": limit}, "max": 0}
         else:
             return {"min": 0, "max": limit}
 
@@ -61,6 +59,11 @@ def _to_between_call(tokens):
         }
 
 
+def _to_range_call(tokens):
+    # BOUNDS ARE DISTANCES IN VALUE, NOT NUMBERS OF ROWS
+    return {**tokens[0], "unit": "range"}
+
+
 UNBOUNDED = keyword("unbounded")
 PRECEDING = keyword("preceding")
 FOLLOWING = keyword("following")
@@ -86,7 +89,7 @@ def window(expr, var_name, sort_column):
     ) / _to_between_call
 
     row_clause = (ROWS.suppress() + (between_row | bound_row)) | (
-        RANGE.suppress() + (between_expr | bound_expr)
+        (RANGE.suppress() + (between_expr | bound_expr)) / _to_range_call
     )
 
     over_clause = (
-- 
2.43.0


From 0b2e3dd3b886f272309ee2b0db7d255dba31c57b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:12:01 +0000
Subject: [PATCH 101/104] fix: a pool can be created with maxshared None, as
 documented

---
 dbutils/pooled_db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 5e387ad..c14f59d 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -244,6 +244,8 @@ class PooledDB:
             mincached = 0
         if maxcached is None:
             maxcached = 0
+        if maxshared is None:
+            maxshared = 0
         if maxconnections is None:
             maxconnections = 0
         if maxcached:
-- 
2.43.0


From f57ecbdf84ec623ff20751ec001018ff11ad5bc2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:28:31 +0000
Subject: [PATCH 102/104] fix: WITH before a set operation that has an ORDER BY
 or LIMIT is formatted

---
 sql_parsing/formatting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index f3415a9..022f6c9 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -505,12 +505,16 @@ class Formatter:
         return " ".join(acc)
 
     def ordered_query(self, json, prec):
-        if json.keys() & set(unordered_clauses) - {"from"}:
+        if json.keys() & set(unordered_clauses) - {"from", "with", "with_recursive"}:
             # regular query
             acc = [self.unordered_query(json, precedence["order"])]
         else:
             # set-op expression
-            acc = [self.dispatch(json["from"], precedence["order"])]
+            acc = []
+            clauses = {k: v for k, v in json.items() if k.startswith("with")}
+            if clauses:
+                acc.append(self.unordered_query(clauses, MAX_PRECEDENCE))
+            acc.append(self.dispatch(json["from"], precedence["order"]))
 
         acc.extend(
             part
-- 
2.43.0


From 8a4589ef40ba87aaa81a37c801074250f7f41827 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:25:56 +0000
Subject: [PATCH 103/104] fix: compare an encrypted INT column with the number
 a constant stands for, not with its text

---
 scheduler/handers/clause/sql_where.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index 10a0262..7272eca 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -14,6 +14,15 @@ class SQLWhere(Rewriter):
         self.values = SQLValues(db_meta)
 
     def encrypt_constant(self, table, col, value, enc):
+        if self.db_meta[table]['columns'][col]['type'] == 'int':
+            # 5, 5.0 and '05' are the same number, but not the same text to encrypt
+            if isinstance(value, float) and value == int(value):
+                value = int(value)
+            elif isinstance(value, dict) and isinstance(value.get('literal'), str):
+                try:
+                    value = int(value['literal'])
+                except ValueError:
+                    raise Exception("a number is expected for column {}".format(col))
         return self.values.encrypt_value(table, col, value, enc)['value']
 
     def check_plaintext(self, condition, table):
-- 
2.43.0


From bcb8af3a30aadd81a1d65ca945b162acd13df4e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:30:29 +0000
Subject: [PATCH 104/104] fix: refuse to compare an encrypted text column with
 a number instead of answering for one spelling of it

---
 scheduler/handers/clause/sql_where.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index 7272eca..3f61f8f 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -23,6 +23,9 @@ class SQLWhere(Rewriter):
                     value = int(value['literal'])
                 except ValueError:
                     raise Exception("a number is expected for column {}".format(col))
+        elif self.db_meta[table]['columns'][col]['type'] in ['char', 'varchar'] and isinstance(value, (int, float)):
+            # 5 equals '5', '05' and '5.0', which have different ciphertexts
+            raise Exception("a text is expected for column {}".format(col))
         return self.values.encrypt_value(table, col, value, enc)['value']
 
     def check_plaintext(self, condition, table):
-- 
2.43.0

