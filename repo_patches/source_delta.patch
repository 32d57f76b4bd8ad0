From cd647882963f1d0bcb448fe2965358cf6ed79f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 01/50] fix: decode negative doubles with the inverse of the
 stretching function

---
 scheduler/crypto/encrypt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 2a7094e..6ac15e5 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -49,7 +49,7 @@ def stretch(val):
 def inverse_stretch(val):
     # piecewise linear function [10**15, 10**19, 10**22, 10**24], [10**15, 10**42, 10**56, 10**65]
     if val < 0:
-        return -stretch(-val)
+        return -inverse_stretch(-val)
     if 10**15 >= val >= 0:
         return val
     if 10**19 >= val > 10**15:
-- 
2.43.0


From 5f16a6fa780aeeac1d7d33115bb1c4df9e4cb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 02/50] fix: encode booleans and numeric text like the numbers
 they stand for

---
 scheduler/crypto/encrypt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 6ac15e5..96654d8 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -61,6 +61,10 @@ def inverse_stretch(val):
 
 
 def encode(val, val_type):
+    if isinstance(val, bool):
+        val = int(val)
+    if val_type in ['float', 'double'] and isinstance(val, str):
+        val = float(val)
     if val_type == 'float':
         return int(val * 10 ** 12)
     if val_type == 'double':
-- 
2.43.0


From 0be60ad086d5b134f1621b4026e88c2c7193fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 03/50] fix: encrypt every constant compared with an encrypted
 column, refuse what cannot be compared

---
 scheduler/handers/clause/sql_where.py | 64 +++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index fc6cfb6..b575f06 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -22,7 +22,7 @@ class SQLWhere(Rewriter):
                     if col:
                         if not col[v[0]]['plaintext']:
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
-                                           self.rewrite(v[1], table, key=col[v[0]]['key'])]}
+                                           self.encrypt_operand(v[1], col, col[v[0]])]}
                     else:
                         # We don't handle the situation when the join items are plaintext and cipher, but the sql still
                         # works. It just returns empty result...
@@ -37,21 +37,30 @@ class SQLWhere(Rewriter):
                                    self.db_meta[t_name1]['anonymous'] + "." + col_name1
                                    ]}
 
-                if k in ['gt', 'lt', 'gte', 'lte']:
+                if k in ['neq', 'in', 'nin']:
                     if not col[v[0]]['plaintext']:
-                        if col[v[0]]['type'] == 'int':
-                            return {k: [col[v[0]]['enc-cols']["order-preserving"],
-                                        self.rewrite(v[1], table, cipher='order-preserving', key=col[v[0]]['key'])]}
-                if k == 'like':
+                        return {k: [col[v[0]]['enc-cols']["symmetric"],
+                                    self.encrypt_operand(v[1], col, col[v[0]])]}
+                if k in ['missing', 'exists'] and isinstance(v, str):
+                    if not col[v]['plaintext']:
+                        return {k: col[v]['enc-cols']["symmetric"]}
+                if k in ['gt', 'lt', 'gte', 'lte', 'between', 'not_between']:
+                    if not col[v[0]]['plaintext']:
+                        return {k: [col[v[0]]['enc-cols']["order-preserving"]] +
+                                   [self.encrypt_operand(i, col, col[v[0]], 'order-preserving') for i in v[1:]]}
+                if k in ['like', 'not_like']:
                     if not col[v[0]]['plaintext']:
                         return {
-                            'like': [col[v[0]]['enc-cols']["fuzzy"],
-                                     self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'])]
+                            k: [col[v[0]]['enc-cols']["fuzzy"],
+                                self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'])]
                         }
-                if k in Logical_Operation:
+                if k in Logical_Operation and all(isinstance(a_v, dict) for a_v in v):
                     return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}
+                if k == 'not' and isinstance(v, dict):
+                    return {k: self.rewrite(v, table, cipher=cipher)}
                 if k == 'literal':
                     return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
+            self.check_plaintext(where_value, col)
         if isinstance(where_value, int):
             if cipher == 'fuzzy':
                 partial_list = str(where_value).split("%")
@@ -87,3 +96,40 @@ class SQLWhere(Rewriter):
             if cipher == 'symmetric':
                 return encrypt.AESCipher(key).encrypt(where_value)
         return where_value
+
+    def encrypt_operand(self, value, col, column, cipher='symmetric'):
+        if isinstance(value, str):
+            # another column of the same table
+            other = col[value]
+            if other['plaintext'] or other['key'] != column['key'] or other['type'] != column['type']:
+                raise Exception("comparison of an encrypted column with column {} is not supported".format(value))
+            return other['enc-cols'][cipher]
+        if isinstance(value, list):
+            return [self.encrypt_operand(i, col, column, cipher) for i in value]
+        if isinstance(value, dict):
+            if set(value) != {'literal'}:
+                raise Exception("comparison of an encrypted column with {} is not supported".format(list(value)))
+            value = value['literal']
+            if isinstance(value, list):
+                return {'literal': [self.encrypt_operand({'literal': i}, col, column, cipher)['literal'] for i in value]}
+        value = encrypt.encode(value, column['type'])
+        if isinstance(value, float) and value.is_integer():
+            value = int(value)
+        if cipher == 'order-preserving':
+            if isinstance(value, float):
+                raise Exception("ordering comparison of an integer column with {} is not supported".format(value))
+            return encrypt.OPECipher(column['key']).encrypt(value)
+        return {'literal': encrypt.AESCipher(column['key']).encrypt(str(value))}
+
+    def check_plaintext(self, value, col):
+        # an expression that is not rewritten must not depend on an encrypted column
+        if isinstance(value, dict):
+            for k, v in value.items():
+                if k != 'literal':
+                    self.check_plaintext(v, col)
+        elif isinstance(value, list):
+            for v in value:
+                self.check_plaintext(v, col)
+        elif isinstance(value, str):
+            if not col or not col.get(value.split('.')[-1], {'plaintext': True})['plaintext']:
+                raise Exception("operation on encrypted column {} is not supported".format(value))
-- 
2.43.0


From da3e1c7f592e9fd5a7babecd68de78f7b3d93568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 04/50] fix: format inserted NULLs, expressions, single
 columns, unnamed rows and queries

---
 sql_parsing/formatting.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 17e2443..b0bad89 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -590,7 +590,7 @@ class Formatter:
         acc.append(json["insert"])
 
         if "columns" in json:
-            acc.append(self.sql_list(json["columns"]))
+            acc.append(self.sql_list(listwrap(json["columns"])))
         if "values" in json:
             values = json["values"]
             if all(isinstance(row, dict) for row in values):
@@ -607,24 +607,18 @@ class Formatter:
                 if "if exists" in json:
                     acc.append("IF EXISTS")
                 acc.append("VALUES")
-                for row in values:
-                    acc.append("(" + ", ".join(self._literal(row)) + ")")
+                acc.append(", ".join(self._literal(row) for row in values))
         elif "query" in json:
             query_values = json["query"]
-            if "select" in query_values:
-                values = query_values["select"]
-                if all(isinstance(row, dict) for row in values):
-                    if "if exists" in json:
-                        acc.append("IF EXISTS")
-                    acc.append("VALUES")
-                    acc.append(
-                        "(" + ", ".join(self._literal(v['value']) for v in values) + ")"
-                    )
-
-        else:
             if "if exists" in json:
                 acc.append("IF EXISTS")
-            acc.append(self.dispatch(json["query"]))
+            if set(query_values) == {"select"}:
+                acc.append("VALUES")
+                acc.append(
+                    "(" + ", ".join(self.dispatch(v['value']) for v in listwrap(query_values["select"])) + ")"
+                )
+            else:
+                acc.append(self.dispatch(query_values))
         return " ".join(acc)
 
     def drop(self, json, prec=precedence["from"]):
-- 
2.43.0


From 0aabbaebed2010fc5c79e0507d2772edc70a5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 05/50] fix: encrypt the constants of UPDATE like those of
 INSERT, rewrite inserts of several rows or one column

---
 scheduler/handers/clause/__init__.py    |  3 ++-
 scheduler/handers/clause/sql_columns.py |  2 +-
 scheduler/handers/clause/sql_set.py     |  6 ++---
 scheduler/handers/clause/sql_values.py  | 31 ++++++++++++++++++++++++-
 4 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index d8df19e..dcf6e5f 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -5,7 +5,7 @@ from scheduler.handers.clause.sql_from import SQLFrom
 from scheduler.handers.clause.anonymous_table import AnonymousTable
 from scheduler.handers.clause.function import OrderBy
 from scheduler.handers.clause.sql_columns import SQLColumns
-from scheduler.handers.clause.sql_values import SQLValues
+from scheduler.handers.clause.sql_values import SQLValues, SQLRows
 from scheduler.handers.clause.sql_drop import SQLDrop
 
 clause = {
@@ -21,6 +21,7 @@ clause = {
     'columns': SQLColumns,
     'drop': SQLDrop,
     'query': {'select': SQLValues},
+    'values': SQLRows,
     'alter': AnonymousTable,
     'reference_table': AnonymousTable,
     'add primary key': SQLSelect,
diff --git a/scheduler/handers/clause/sql_columns.py b/scheduler/handers/clause/sql_columns.py
index 5699940..8c6e9ca 100644
--- a/scheduler/handers/clause/sql_columns.py
+++ b/scheduler/handers/clause/sql_columns.py
@@ -8,7 +8,7 @@ class SQLColumns(Rewriter):
     def rewrite(self, columns, table, json=None):
         enc_table_meta = self.db_meta[table]
         new_columns = []
-        for col in columns:
+        for col in columns if isinstance(columns, list) else [columns]:
             if enc_table_meta['columns'][col]['plaintext']:
                 new_columns.append(col)
             else:
diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index f821e05..6e7e810 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,11 +1,11 @@
-from scheduler.handers.clause.sql_where import SQLWhere
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.rewriter import Rewriter
 
 
 class SQLSet(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
-        self.where = SQLWhere(db_meta)
+        self.values = SQLValues(db_meta)
 
     def rewrite(self, set_value, table, json=None):
         result = {}
@@ -15,5 +15,5 @@ class SQLSet(Rewriter):
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
-                    result[v1] = self.where.rewrite(v, table, k1, key=enc_table_meta['columns'][k]['key'])
+                    result[v1] = self.values.encrypt_value(table, k, v, k1)['value']
         return result
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 5f37443..ad03cb9 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -9,7 +9,11 @@ class SQLValues(Rewriter):
     def rewrite(self, values, table, json=None):
         new_values = []
         enc_table_meta = self.db_meta[table]
-        for col, value in zip(json['columns'], values):
+        columns = json['columns'] if isinstance(json['columns'], list) else [json['columns']]
+        values = values if isinstance(values, list) else [values]
+        if len(columns) != len(values):
+            raise Exception("column count doesn't match value count")
+        for col, value in zip(columns, values):
             if enc_table_meta['columns'][col]['plaintext']:
                 new_values.append(value)
             else:
@@ -19,6 +23,10 @@ class SQLValues(Rewriter):
 
     def encrypt_value(self, table, col, value, enc):
         key = self.db_meta[table]['columns'][col]['key']
+        if isinstance(value, dict) and 'null' in value:
+            return {'value': value}
+        if isinstance(value, str):
+            raise Exception("{} is not a constant".format(value))
         if isinstance(value, dict):
             value = value['literal']
         value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
@@ -31,3 +39,24 @@ class SQLValues(Rewriter):
         if enc == "arithmetic":
             homomorphic_key = self.db_meta[table]['columns'][col]['homomorphic_key']
             return {'value': {'literal': encrypt.HomomorphicCipher(homomorphic_key).encrypt(int(value))}}
+        if enc == "sm4":
+            sm4_key = self.db_meta[table]['columns'][col]['sm4_key']
+            return {'value': {'literal': encrypt.SM4CipherBytes(sm4_key).encrypt(str(value))}}
+
+
+class SQLRows(SQLValues):
+    # the rows of an insert of several rows, [{column: constant}, ...]
+    def rewrite(self, rows, table, json=None):
+        new_rows = []
+        for row in rows:
+            new_row = {}
+            for col, value in row.items():
+                column = self.db_meta[table]['columns'][col]
+                if column['plaintext']:
+                    new_row[col] = value
+                    continue
+                value = {'literal': value} if isinstance(value, str) else value
+                for enc, enc_col in column['enc-cols'].items():
+                    new_row[enc_col] = self.encrypt_value(table, col, value, enc)['value']
+            new_rows.append(new_row)
+        return new_rows
-- 
2.43.0


From 605a23783a62a7b5822b7e8a9830583376926940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 06/50] fix: report failed statements instead of ignoring them

---
 scheduler/backend/executors/remote_executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 8231a78..9b3081b 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -106,6 +106,8 @@ class RemoteExecutor(AbstractQueryExecutor):
             logger.info(e)
             if query_type == QueryType.CREATE:
                 self.meta.delete_delta(self.str_db, self.table['table'])
+            self.conn.close()
+            raise e
         if query_type == QueryType.DROP:
             self.meta.delete_delta(self.str_db, self.table['table'])
         elif query_type == QueryType.SELECT:
-- 
2.43.0


From cf200a22fb33256f922697f4bcc5ff64356816be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 07/50] fix: rewrite an insert of a single column

---
 scheduler/handers/rewrite_hander.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index cab970b..9b8817d 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -37,7 +37,7 @@ class Rewriter(Clause):
             raise Exception("no table found in sql {}".format(self.origin_query))
 
         def __inner__(inner_json, inner_key, _func):
-            if isinstance(inner_json, dict):
+            if isinstance(inner_json, dict) and inner_key in inner_json:
                 if isinstance(inner_json[inner_key], dict):
                     for _k, _v in inner_json[inner_key].items():
                         tmp = __inner__(_v, _k, _func)
@@ -88,7 +88,7 @@ class Rewriter(Clause):
             raise Exception("no table found in sql {}".format(self.origin_query))
 
         def __inner__(inner_json, inner_key, _func):
-            if isinstance(inner_json, dict):
+            if isinstance(inner_json, dict) and inner_key in inner_json:
                 if isinstance(inner_json[inner_key], dict):
                     for _k, _v in inner_json[inner_key].items():
                         tmp = __inner__(_v, _k, _func)
-- 
2.43.0


From 52b16a652bc1ca4d01195f53d24ec2d73a1c06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 08/50] fix: encode floating-point numbers exactly, decode
 doubles above 1000

---
 scheduler/crypto/encrypt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 96654d8..b93c576 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -16,6 +16,7 @@
 from base64 import b64decode
 from base64 import b64encode
 from hashlib import sha256
+from decimal import Decimal
 from functools import reduce
 import random
 
@@ -66,10 +67,10 @@ def encode(val, val_type):
     if val_type in ['float', 'double'] and isinstance(val, str):
         val = float(val)
     if val_type == 'float':
-        return int(val * 10 ** 12)
+        return int(Decimal(str(val)).scaleb(12))
     if val_type == 'double':
         val = stretch(val)
-        return int(val * 10 ** 12)
+        return int(Decimal(str(val)).scaleb(12))
     return val
 
 
@@ -84,8 +85,7 @@ def decode(val, val_type):
     if val_type == 'float':
         return val / 10 ** 12
     if val_type == 'double':
-        val = inverse_stretch(val)
-        return val / 10 ** 12
+        return inverse_stretch(val / 10 ** 12)
     return val
 
 
-- 
2.43.0


From 0087223b71241d0b618c1697b3be6bd7671475c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:02 +0000
Subject: [PATCH 09/50] fix: LIKE on fuzzy columns finds texts of any
 characters, words of a pattern do not overlap

---
 scheduler/crypto/encrypt.py           |  5 +++--
 scheduler/handers/clause/sql_where.py | 31 +++++++++++++++++++++------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index b93c576..f927b07 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -286,9 +286,10 @@ class FuzzyCipher:
     def __init__(self, key):
         self.cipher = AESCipher(key)
 
-    def encrypt(self, raw):
+    def encrypt(self, raw, size=None):
+        # size: length of the encrypted pieces, by default 3 for letters and digits only and 2 for other texts
         result = ""
-        if raw.isalpha() or raw.isalnum() or raw.isdigit():
+        if size == 3 or size is None and (raw.isalpha() or raw.isalnum() or raw.isdigit()):
             if len(raw) < 3:
                 result = self.cipher.encrypt(str(raw))
             else:
diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index b575f06..8aec160 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -9,7 +9,7 @@ class SQLWhere(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
 
-    def rewrite(self, where_value, table, cipher='symmetric', json=None, key=""):
+    def rewrite(self, where_value, table, cipher='symmetric', json=None, key="", size=None):
         try:
             col = self.db_meta[table]['columns']
         except Exception as e:
@@ -50,16 +50,19 @@ class SQLWhere(Rewriter):
                                    [self.encrypt_operand(i, col, col[v[0]], 'order-preserving') for i in v[1:]]}
                 if k in ['like', 'not_like']:
                     if not col[v[0]]['plaintext']:
-                        return {
+                        # texts are stored in pieces of 3 or 2 characters, see FuzzyCipher
+                        sizes = self.fuzzy_sizes(v[1], col[v[0]])
+                        likes = [{
                             k: [col[v[0]]['enc-cols']["fuzzy"],
-                                self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'])]
-                        }
+                                self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'], size=size)]
+                        } for size in sizes]
+                        return likes[0] if len(likes) == 1 else {'or' if k == 'like' else 'and': likes}
                 if k in Logical_Operation and all(isinstance(a_v, dict) for a_v in v):
                     return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}
                 if k == 'not' and isinstance(v, dict):
                     return {k: self.rewrite(v, table, cipher=cipher)}
                 if k == 'literal':
-                    return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
+                    return {'literal': self.rewrite(v, table, cipher=cipher, key=key, size=size)}
             self.check_plaintext(where_value, col)
         if isinstance(where_value, int):
             if cipher == 'fuzzy':
@@ -73,7 +76,9 @@ class SQLWhere(Rewriter):
                         if len(str(partial)) < 3:
                             raise Exception("The length of fuzzy search word {} is {} <3"
                                             .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(str(partial)))
+                        # words of the pattern must not share characters of the text
+                        gap = "_" * 24 * (size - 1) if any(result) else ""
+                        result.append(gap + encrypt.FuzzyCipher(key).encrypt(str(partial), size))
                 return "%".join(result)
             if cipher == 'symmetric':
                 return encrypt.AESCipher(key).encrypt(str(where_value))
@@ -91,12 +96,24 @@ class SQLWhere(Rewriter):
                         if len(str(partial)) < 3:
                             raise Exception("The length of fuzzy search word {} is {} <3"
                                             .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(partial))
+                        # words of the pattern must not share characters of the text
+                        gap = "_" * 24 * (size - 1) if any(result) else ""
+                        result.append(gap + encrypt.FuzzyCipher(key).encrypt(partial, size))
                 return "%".join(result)
             if cipher == 'symmetric':
                 return encrypt.AESCipher(key).encrypt(where_value)
         return where_value
 
+    @staticmethod
+    def fuzzy_sizes(pattern, column):
+        if isinstance(pattern, str) or isinstance(pattern, bool) or column['type'] in ['float', 'double']:
+            raise Exception("pattern {} is not supported".format(pattern))
+        pattern = str(pattern['literal'] if isinstance(pattern, dict) else pattern)
+        if '_' in pattern or '\\' in pattern:
+            raise Exception("only % is supported in the pattern {}".format(pattern))
+        words = [word for word in pattern.split("%") if word]
+        return [3, 2] if words and all(word.isalnum() for word in words) else [2]
+
     def encrypt_operand(self, value, col, column, cipher='symmetric'):
         if isinstance(value, str):
             # another column of the same table
-- 
2.43.0


From 5ec27e8826c64b9b909ed6a905e6d2b0b0f51a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 10/50] fix: inserts of several rows parsed as unions, integers
 given as text or floats are encoded as the numbers they are

---
 scheduler/crypto/encrypt.py            |  4 ++++
 scheduler/handers/clause/__init__.py   |  4 ++--
 scheduler/handers/clause/sql_clause.py |  3 +--
 scheduler/handers/clause/sql_values.py | 11 +++++++++++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index f927b07..84b032d 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -66,6 +66,10 @@ def encode(val, val_type):
         val = int(val)
     if val_type in ['float', 'double'] and isinstance(val, str):
         val = float(val)
+    if val_type == 'int' and isinstance(val, (str, float)):
+        if Decimal(val) != int(Decimal(val)):
+            raise ValueError("{} is not an integer".format(val))
+        return int(Decimal(val))
     if val_type == 'float':
         return int(Decimal(str(val)).scaleb(12))
     if val_type == 'double':
diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index dcf6e5f..6a69e92 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -5,7 +5,7 @@ from scheduler.handers.clause.sql_from import SQLFrom
 from scheduler.handers.clause.anonymous_table import AnonymousTable
 from scheduler.handers.clause.function import OrderBy
 from scheduler.handers.clause.sql_columns import SQLColumns
-from scheduler.handers.clause.sql_values import SQLValues, SQLRows
+from scheduler.handers.clause.sql_values import SQLValues, SQLRows, SQLUnion
 from scheduler.handers.clause.sql_drop import SQLDrop
 
 clause = {
@@ -20,7 +20,7 @@ clause = {
     'orderby': OrderBy,
     'columns': SQLColumns,
     'drop': SQLDrop,
-    'query': {'select': SQLValues},
+    'query': {'select': SQLValues, 'union_all': SQLUnion},
     'values': SQLRows,
     'alter': AnonymousTable,
     'reference_table': AnonymousTable,
diff --git a/scheduler/handers/clause/sql_clause.py b/scheduler/handers/clause/sql_clause.py
index 3b06b1d..40953f0 100644
--- a/scheduler/handers/clause/sql_clause.py
+++ b/scheduler/handers/clause/sql_clause.py
@@ -13,8 +13,7 @@ class Clause(object):
             self.db_meta = Delta().meta.get(db, {})
         for key, value in clause.items():
             if isinstance(value, dict):
-                for k, v in value.items():
-                    setattr(self, key, {k: v(self.db_meta)})
+                setattr(self, key, {k: v(self.db_meta) for k, v in value.items()})
             else:
                 setattr(self, key, value(self.db_meta))
 
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index ad03cb9..1bed40c 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -60,3 +60,14 @@ class SQLRows(SQLValues):
                     new_row[enc_col] = self.encrypt_value(table, col, value, enc)['value']
             new_rows.append(new_row)
         return new_rows
+
+
+class SQLUnion(SQLValues):
+    # the rows of an insert of several rows with other constants, [{'select': [{'value': constant}, ...]}, ...]
+    def rewrite(self, queries, table, json=None):
+        new_queries = []
+        for query in queries:
+            if set(query) != {'select'}:
+                raise Exception("insert from a query is not supported")
+            new_queries.append({'select': super().rewrite(query['select'], table, json=json)})
+        return new_queries
-- 
2.43.0


From ee43c1f5328fdc30ea2f5af0506a32b36c742648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:10 +0000
Subject: [PATCH 11/50] fix: an INSERT whose rows do not match its column list
 is not cut to fit

---
 sql_parsing/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 78640a0..1d0d896 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -534,6 +534,9 @@ def to_insert_call(tokens):
     try:
         values = query["from"]["literal"]
         if values:
+            names = list(columns or [])
+            if names and (len(set(names)) != len(names) or any(len(row) != len(names) for row in values)):
+                return Call("insert", [tokens["table"]], {"columns": names, "values": values, **options})
             if columns:
                 data = [dict(zip(columns, row)) for row in values]
                 return Call("insert", [tokens["table"]], {"values": data, **options})
-- 
2.43.0


From f49d815ae38360242ed0552d33c9bdc21b2ee490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:21 +0000
Subject: [PATCH 12/50] fix: an operator without its operands is a syntax
 error, the rest of the expression is not dropped

---
 parsing/infix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsing/infix.py b/parsing/infix.py
index 7e9d8e8..89b4b2c 100644
--- a/parsing/infix.py
+++ b/parsing/infix.py
@@ -14,6 +14,7 @@ from parsing.enhancement import (
     Suppress,
     ZeroOrMore,
 )
+from parsing.exceptions import ParseException
 from parsing.expressions import MatchFirst, Or
 from parsing.results import ParseResults, NO_PARSER
 from parsing.tokens import (
@@ -360,6 +361,10 @@ def infix_notation(
             flat_tokens[i : i + offset] = [(result, (expr,))]
             op_index = 0
 
+        if len(flat_tokens) > 1:
+            raise ParseException(
+                flat, tokens.start, string, "operators without their operands"
+            )
         result = flat_tokens[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
-- 
2.43.0


From d4a7a3d96f00f81680e5179cad3cc460f463a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 13/50] fix: MySQL's operator precedence, parentheses of
 operands, IS TRUE, = NULL, ||, EXISTS and text escapes survive parsing and
 formatting

---
 scheduler/handers/clause/sql_where.py |  2 +
 scheduler/handers/rewrite_hander.py   |  2 +-
 sql_parsing/formatting.py             | 93 +++++++++++++++++----------
 sql_parsing/keywords.py               | 77 ++++++++++++++--------
 sql_parsing/sql_parser.py             |  7 +-
 sql_parsing/types.py                  |  8 +--
 sql_parsing/utils.py                  | 60 ++++++++++-------
 7 files changed, 155 insertions(+), 94 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index 8aec160..921c61c 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -124,6 +124,8 @@ class SQLWhere(Rewriter):
         if isinstance(value, list):
             return [self.encrypt_operand(i, col, column, cipher) for i in value]
         if isinstance(value, dict):
+            if set(value) == {'null'}:
+                return value
             if set(value) != {'literal'}:
                 raise Exception("comparison of an encrypted column with {} is not supported".format(list(value)))
             value = value['literal']
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 9b8817d..0afc3fb 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -74,7 +74,7 @@ class Rewriter(Clause):
         Delta.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
-        return format(json), table
+        return format(json, ansi_quotes=False), table
 
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index b0bad89..3d7fc90 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -22,6 +22,16 @@ MAX_PRECEDENCE = 100
 VALID = re.compile(r"^[a-zA-Z_]\w*$")
 
 
+# QUERIES ARE IN PARENTHESES, OTHER EXPRESSIONS ARE NOT
+SUBQUERY = precedence["select"] - 1
+
+
+def is_query(json):
+    return isinstance(json, dict) and bool(
+        json.keys() & {"select", "select_distinct", "distinct_on", "from", "with", *is_set_op}
+    )
+
+
 def is_keyword(identifier):
     try:
         RESERVED.parse_string(identifier)
@@ -65,6 +75,9 @@ def escape(ident, ansi_quotes, should_quote):
 
 def Operator(_op):
     op_prec = precedence[binary_ops[_op]]
+    # OPERATORS GROUP TO THE LEFT, OPERANDS OF PREDICATES DO NOT INCLUDE PREDICATES
+    left_prec = op_prec if op_prec != precedence["like"] else op_prec - 0.5
+    right_prec = op_prec - 0.5 if op_prec != precedence["like"] else precedence["collate"]
     op = " {0} ".format(_op).replace("_", " ").upper()
 
     def func(self, json, prec):
@@ -77,9 +90,9 @@ def Operator(_op):
 
         for i, v in enumerate(listwrap(json)):
             if i == 0:
-                acc.append(self.dispatch(v, op_prec + 0.25))
+                acc.append(self.dispatch(v, left_prec))
             else:
-                acc.append(self.dispatch(v, op_prec))
+                acc.append(self.dispatch(v, right_prec))
         if prec >= op_prec:
             return op.join(acc)
         else:
@@ -130,7 +143,6 @@ ordered_clauses = [
 
 class Formatter:
     # infix operators
-    _concat = Operator("||")
     _mul = Operator("*")
     _div = Operator("/")
     _mod = Operator("%")
@@ -197,7 +209,7 @@ class Formatter:
         return text(json)
 
     def sql_list(self, json, prec=precedence["from"] - 1):
-        sql = ", ".join(self.dispatch(element, prec=MAX_PRECEDENCE) for element in json)
+        sql = ", ".join(self.dispatch(element, prec=SUBQUERY) for element in json)
         if prec >= precedence["from"]:
             return sql
         else:
@@ -288,13 +300,32 @@ class Formatter:
                 key.upper() + "()"
             )  # NOT SURE IF AN EMPTY dict SHOULD BE DELT WITH HERE, OR IN self.format()
         else:
-            params = ", ".join(self.dispatch(p) for p in listwrap(value))
+            params = ", ".join(self.dispatch(p, SUBQUERY) for p in listwrap(value))
             return f"{key.upper()}({params})"
 
+    def _neg(self, value, prec):
+        sql = self.dispatch(value, precedence["collate"])
+        return f"-({sql})" if sql.startswith("-") else f"-{sql}"
+
     def _binary_not(self, value, prec):
-        return "~{0}".format(self.dispatch(value))
+        return "~{0}".format(self.dispatch(value, precedence["collate"]))
+
+    def _not(self, value, prec):
+        return "NOT {0}".format(self.dispatch(value, precedence["not"]))
+
+    def _is(self, value, prec):
+        return "{0} IS {1}".format(
+            self.dispatch(value[0], precedence["is"]), self.dispatch(value[1])
+        )
+
+    def _is_not(self, value, prec):
+        return "{0} IS NOT {1}".format(
+            self.dispatch(value[0], precedence["is"]), self.dispatch(value[1])
+        )
 
     def _exists(self, value, prec):
+        if is_query(value):
+            return "EXISTS {0}".format(self.dispatch(value, SUBQUERY))
         return "{0} IS NOT NULL".format(self.dispatch(value, precedence["is"]))
 
     def _missing(self, value, prec):
@@ -306,26 +337,21 @@ class Formatter:
         )
 
     def _in(self, json, prec):
-        member, set = json
-        if "literal" in set:
-            set = {"literal": listwrap(set["literal"])}
-        sql = (
-            self.dispatch(member, precedence["in"])
-            + " IN "
-            + self.dispatch(set, precedence["in"])
-        )
-        if prec < precedence["in"]:
-            sql = f"({sql})"
-        return sql
+        return self.membership(json, "IN", prec)
 
     def _nin(self, json, prec):
+        return self.membership(json, "NOT IN", prec)
+
+    def membership(self, json, op, prec):
         member, set = json
-        if "literal" in set:
+        if isinstance(set, dict) and "literal" in set:
             set = {"literal": listwrap(set["literal"])}
-        sql = (
-            self.dispatch(member, precedence["in"])
-            + " NOT IN "
-            + self.dispatch(set, precedence["in"])
+        elif not is_query(set):
+            set = listwrap(set)
+        sql = "{0} {1} {2}".format(
+            self.dispatch(member, precedence["in"] - 0.5),
+            op,
+            self.dispatch(set, precedence["in"]),
         )
         if prec < precedence["in"]:
             sql = f"({sql})"
@@ -373,6 +399,9 @@ class Formatter:
                 self._literal(v, precedence["literal"]) for v in json
             ))
         elif isinstance(json, string_types):
+            if not self.ansi_quotes:
+                # BACKSLASH IS AN ESCAPE CHARACTER IN MYSQL
+                json = json.replace("\\", "\\\\")
             return "'{0}'".format(json.replace("'", "''"))
         elif isinstance(json, dict):
             return self._literal(json["literal"])
@@ -386,11 +415,9 @@ class Formatter:
         return f"{v_sql}[{i_sql}]"
 
     def _between(self, json, prec):
-        return "{0} BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
-        )
+        return "{0} BETWEEN {1} AND {2}".format(*(
+            self.dispatch(v, precedence["between"] - 0.5) for v in json
+        ))
 
     def _trim(self, json, prec):
         c = json.get("characters")
@@ -410,11 +437,9 @@ class Formatter:
         return "".join(acc)
 
     def _not_between(self, json, prec):
-        return "{0} NOT BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
-        )
+        return "{0} NOT BETWEEN {1} AND {2}".format(*(
+            self.dispatch(v, precedence["between"] - 0.5) for v in json
+        ))
 
     def _distinct(self, json, prec):
         return "DISTINCT " + ", ".join(
@@ -499,7 +524,7 @@ class Formatter:
             return "WITH {0}".format(parts)
 
     def select(self, json, prec):
-        param = ", ".join(self.dispatch(s) for s in listwrap(json["select"]))
+        param = ", ".join(self.dispatch(s, SUBQUERY) for s in listwrap(json["select"]))
         if "top" in json:
             top = self.dispatch(json["top"])
             return f"SELECT TOP ({top}) {param}"
@@ -517,7 +542,7 @@ class Formatter:
         return f"UPDATE {param}"
 
     def set(self, json, prec):
-        param = ", ".join([" = ".join([self.dispatch(k), self.dispatch(v)]) for k, v in json["set"].items()])
+        param = ", ".join([" = ".join([self.dispatch(k), self.dispatch(v, SUBQUERY)]) for k, v in json["set"].items()])
         return f"SET {param}"
 
     def distinct_on(self, json, prec):
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 9f4eaff..28661e4 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -240,46 +240,51 @@ join_keywords = {
 }
 
 precedence = {
-    # https://www.sqlite.org/lang_expr.html
+    # https://dev.mysql.com/doc/refman/8.0/en/operator-precedence.html
     "literal": -1,
     "interval": 0,
     "cast": 0,
+    "case": 0,
     "collate": 0,
     "concat": 1,
+    "neg": 1.5,
+    "binary_not": 1.5,
     "mul": 2,
-    "div": 1.5,
+    "div": 2,
     "mod": 2,
-    "neg": 3,
     "add": 3,
-    "sub": 2.5,
-    "binary_not": 4,
+    "sub": 3,
     "binary_and": 4,
-    "binary_or": 4,
-    "gte": 5,
-    "lte": 5,
-    "lt": 5,
-    "gt": 6,
+    "binary_or": 5,
+    "at_time_zone": 6,
+    "between": 6,
+    "not_between": 6,
+    "in": 6,
+    "nin": 6,
+    "like": 6,
+    "not_like": 6,
+    "rlike": 6,
+    "not_rlike": 6,
+    "similar_to": 6,
+    "not_similar_to": 6,
+    "gte": 7,
+    "lte": 7,
+    "lt": 7,
+    "gt": 7,
     "eq": 7,
     "neq": 7,
+    "eq!": 7,
+    "is": 7,
+    "is_not": 7,
     "missing": 7,
     "exists": 7,
-    "at_time_zone": 8,
-    "between": 8,
-    "not_between": 8,
-    "in": 8,
-    "nin": 8,
-    "is": 8,
-    "like": 8,
-    "not_like": 8,
-    "rlike": 8,
-    "not_rlike": 8,
-    "similar_to": 8,
-    "not_similar_to": 8,
+    "not": 9,
     "and": 10,
     "or": 11,
     "lambda": 12,
     "join": 18,
     "list": 18,
+    "distinct": 20,
     "select": 30,
     "from": 30,
     "window": 35,
@@ -291,36 +296,52 @@ precedence = {
     "order": 50,
 }
 
+SIGN = NEG | BINARY_NOT
+COMPARISON = (
+    DEQ | IDF | INDF | NEQ | GTE | LTE | LT | GT | EEQ | IS_NOT | IS
+)
+
 KNOWN_OPS = [
+    # https://dev.mysql.com/doc/refman/8.0/en/operator-precedence.html
     COLLATE,
     CONCAT,
+    SIGN,
     MUL | DIV | MOD,
-    NEG,
     ADD | SUB,
-    BINARY_NOT,
     BINARY_AND,
     BINARY_OR,
-    GTE | LTE | LT | GT,
-    EEQ | NEQ | DEQ | IDF | INDF,
     AT_TIME_ZONE,
     (BETWEEN, AND),
     (NOT_BETWEEN, AND),
     IN,
     NOT_IN,
-    IS_NOT,
-    IS,
     LIKE,
     NOT_LIKE,
     RLIKE,
     NOT_RLIKE,
     SIMILAR_TO,
     NOT_SIMILAR_TO,
+    COMPARISON,
     NOT,
     AND,
     OR,
     LAMBDA,
 ]
 
+# https://dev.mysql.com/doc/refman/8.0/en/sql-mode.html#sqlmode_pipes_as_concat
+MYSQL_AND = AND | Literal("&&") / (lambda: "and")
+MYSQL_OR = OR | Literal("||") / (lambda: "or")
+
+
+
+def mysql_op(op):
+    if isinstance(op, tuple):
+        return tuple(mysql_op(o) for o in op)
+    return MYSQL_AND if op is AND else MYSQL_OR if op is OR else op
+
+
+MYSQL_OPS = [mysql_op(op) for op in KNOWN_OPS if op is not CONCAT]
+
 times = ["now", "today", "tomorrow", "eod"]
 
 durations = {
diff --git a/sql_parsing/sql_parser.py b/sql_parsing/sql_parser.py
index 9d0558c..975a72a 100644
--- a/sql_parsing/sql_parser.py
+++ b/sql_parsing/sql_parser.py
@@ -46,14 +46,13 @@ def common_parser():
 
 
 def mysql_parser():
-    mysql_string = ansi_string | mysql_doublequote_string
     mysql_ident = Combine(delimited_list(
         mysql_backtick_ident | sqlserver_ident | simple_ident,
         separator=".",
         combine=True,
     )).set_parser_name("mysql identifier")
 
-    return parser(mysql_string, mysql_ident)
+    return parser(mysql_string, mysql_ident, known_ops=MYSQL_OPS)
 
 
 def sqlserver_parser():
@@ -69,7 +68,7 @@ def sqlserver_parser():
     return parser(ansi_string, combined_ident, sqlserver=True)
 
 
-def parser(literal_string, ident, sqlserver=False):
+def parser(literal_string, ident, sqlserver=False, known_ops=KNOWN_OPS):
     with Whitespace() as engine:
         engine.add_ignore(Literal("--") + restOfLine)
         engine.add_ignore(Literal("#") + restOfLine)
@@ -347,7 +346,7 @@ def parser(literal_string, ident, sqlserver=False):
                             unary_ops.get(o, LEFT_ASSOC),
                             to_lambda if o is LAMBDA else to_json_operator,
                         )
-                        for o in KNOWN_OPS
+                        for o in known_ops
                     ],
                 )
             )("value").set_parser_name("expression")
diff --git a/sql_parsing/types.py b/sql_parsing/types.py
index d8761a0..6e00636 100644
--- a/sql_parsing/types.py
+++ b/sql_parsing/types.py
@@ -15,12 +15,12 @@ from parsing.infix import delimited_list, RIGHT_ASSOC, LEFT_ASSOC
 from sql_parsing.keywords import (
     RB,
     LB,
-    NEG,
+    SIGN,
     NOT,
-    BINARY_NOT,
     NULL,
     EQ,
     KNOWN_OPS,
+    MYSQL_OPS,
     LT,
     GT,
 )
@@ -144,11 +144,11 @@ simple_types << MatchFirst([
 
 CASTING = (Literal("::").suppress() + simple_types("params")).set_parser_name("cast")
 KNOWN_OPS.insert(0, CASTING)
+MYSQL_OPS.insert(0, CASTING)
 
 unary_ops = {
-    NEG: RIGHT_ASSOC,
+    SIGN: RIGHT_ASSOC,
     NOT: RIGHT_ASSOC,
-    BINARY_NOT: RIGHT_ASSOC,
     CASTING: LEFT_ASSOC,
 }
 
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 1d0d896..543c9a1 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -8,6 +8,7 @@
 #
 
 import ast
+import re
 
 from dots import is_data, is_null, Data, from_data
 from parsing_future import text, number_types, binary_type, flatten
@@ -141,7 +142,9 @@ def to_json_operator(tokens):
         if tokens.tokens[1].type.parser_name == "cast":
             return Call("cast", list(tokens), {})
         # UNARY OPERATOR
-        op = tokens.tokens[0].type.parser_name
+        op = {"-": "neg", "~": "binary_not"}.get(
+            tokens[0], tokens.tokens[0].type.parser_name
+        )
         if op == "neg" and is_number(tokens[1]):
             return -tokens[1]
         return Call(op, [tokens[1]], {})
@@ -154,18 +157,13 @@ def to_json_operator(tokens):
     op = tokens[1]
     if not isinstance(op, text):
         op = op.type.parser_name
-    op = binary_ops.get(op, op)
-    if op == "eq":
+    if op in ("is", "is_not"):
         if tokens[2] is SQL_NULL:
-            return Call("missing", tokens[0], {})
-        elif tokens[0] is SQL_NULL:
-            return Call("missing", tokens[2], {})
-    elif op == "neq":
-        if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
-        elif tokens[0] is SQL_NULL:
-            return Call("exists", tokens[2], {})
-    elif op == "eq!":
+            return Call("missing" if op == "is" else "exists", tokens[0], {})
+        elif isinstance(tokens[2], bool):
+            return Call(op, [tokens[0], tokens[2]], {})
+    op = binary_ops.get(op, op)
+    if op == "eq!":
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
         elif tokens[0] is SQL_NULL:
@@ -175,16 +173,6 @@ def to_json_operator(tokens):
             return Call("exists", tokens[0], {})
         elif tokens[0] is SQL_NULL:
             return Call("exists", tokens[2], {})
-    elif op == "is":
-        if tokens[2] is SQL_NULL:
-            return Call("missing", tokens[0], {})
-        else:
-            return Call("exists", tokens[0], {})
-    elif op == "is_not":
-        if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
-        else:
-            return Call("missing", tokens[0], {})
 
     operands = [tokens[0], tokens[2]]
     binary_op = Call(op, operands, {})
@@ -591,6 +579,30 @@ def to_string(tokens):
     return {"literal": ast.literal_eval(val)}
 
 
+# https://dev.mysql.com/doc/refman/8.0/en/string-literals.html
+MYSQL_ESCAPES = {
+    "0": "\0",
+    "b": "\b",
+    "n": "\n",
+    "r": "\r",
+    "t": "\t",
+    "Z": "\x1a",
+    "%": "\\%",
+    "_": "\\_",
+}
+
+
+def to_mysql_string(tokens):
+    val = tokens[0]
+    quote = val[0]
+
+    def char(found):
+        escaped = found.group(1)
+        return MYSQL_ESCAPES.get(escaped, escaped) if escaped else quote
+
+    return {"literal": re.sub(r"\\([\s\S])|" + quote * 2, char, val[1:-1])}
+
+
 # NUMBERS
 real_num = (
     Regex(r"[+-]?(\d+\.\d*|\.\d+)([eE][+-]?\d+)?").set_parser_name("float")
@@ -612,7 +624,9 @@ hex_num = (
 
 # STRINGS
 ansi_string = Regex(r"\'(\'\'|[^'])*\'") / to_string
-mysql_doublequote_string = Regex(r'\"(\"\"|[^"])*\"') / to_string
+mysql_string = (
+    Regex(r"\'(\'\'|\\[\s\S]|[^'\\])*\'") | Regex(r'\"(\"\"|\\[\s\S]|[^"\\])*\"')
+) / to_mysql_string
 
 # BASIC IDENTIFIERS
 ansi_ident = Regex(r'\"(\"\"|[^"])*\"') / unquote
-- 
2.43.0


From 3af5f5fdadb9ac1d259db54ce33c7add5a99d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 14/50] fix: a number as LIKE pattern is sent as a text literal

---
 scheduler/handers/clause/sql_where.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index 921c61c..b0dafcb 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -51,10 +51,11 @@ class SQLWhere(Rewriter):
                 if k in ['like', 'not_like']:
                     if not col[v[0]]['plaintext']:
                         # texts are stored in pieces of 3 or 2 characters, see FuzzyCipher
-                        sizes = self.fuzzy_sizes(v[1], col[v[0]])
+                        pattern = v[1] if isinstance(v[1], dict) else {'literal': v[1]}
+                        sizes = self.fuzzy_sizes(pattern, col[v[0]])
                         likes = [{
                             k: [col[v[0]]['enc-cols']["fuzzy"],
-                                self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'], size=size)]
+                                self.rewrite(pattern, table, cipher='fuzzy', key=col[v[0]]['key'], size=size)]
                         } for size in sizes]
                         return likes[0] if len(likes) == 1 else {'or' if k == 'like' else 'and': likes}
                 if k in Logical_Operation and all(isinstance(a_v, dict) for a_v in v):
@@ -106,9 +107,10 @@ class SQLWhere(Rewriter):
 
     @staticmethod
     def fuzzy_sizes(pattern, column):
-        if isinstance(pattern, str) or isinstance(pattern, bool) or column['type'] in ['float', 'double']:
+        pattern = pattern.get('literal')
+        if not isinstance(pattern, (int, str)) or isinstance(pattern, bool) or column['type'] in ['float', 'double']:
             raise Exception("pattern {} is not supported".format(pattern))
-        pattern = str(pattern['literal'] if isinstance(pattern, dict) else pattern)
+        pattern = str(pattern)
         if '_' in pattern or '\\' in pattern:
             raise Exception("only % is supported in the pattern {}".format(pattern))
         words = [word for word in pattern.split("%") if word]
-- 
2.43.0


From 24c4586e8476c973a78e9f048a41d78a8bd06670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 15/50] fix: the last operand of BETWEEN includes predicates,
 -- without a space is not a comment in MySQL

---
 sql_parsing/keywords.py   |  4 +---
 sql_parsing/sql_parser.py | 22 ++++++++++++++++++----
 sql_parsing/utils.py      |  7 ++++---
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 28661e4..30e4da0 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -311,8 +311,6 @@ KNOWN_OPS = [
     BINARY_AND,
     BINARY_OR,
     AT_TIME_ZONE,
-    (BETWEEN, AND),
-    (NOT_BETWEEN, AND),
     IN,
     NOT_IN,
     LIKE,
@@ -321,6 +319,7 @@ KNOWN_OPS = [
     NOT_RLIKE,
     SIMILAR_TO,
     NOT_SIMILAR_TO,
+    (BETWEEN | NOT_BETWEEN, AND),
     COMPARISON,
     NOT,
     AND,
@@ -333,7 +332,6 @@ MYSQL_AND = AND | Literal("&&") / (lambda: "and")
 MYSQL_OR = OR | Literal("||") / (lambda: "or")
 
 
-
 def mysql_op(op):
     if isinstance(op, tuple):
         return tuple(mysql_op(o) for o in op)
diff --git a/sql_parsing/sql_parser.py b/sql_parsing/sql_parser.py
index 975a72a..d973e06 100644
--- a/sql_parsing/sql_parser.py
+++ b/sql_parsing/sql_parser.py
@@ -52,7 +52,13 @@ def mysql_parser():
         combine=True,
     )).set_parser_name("mysql identifier")
 
-    return parser(mysql_string, mysql_ident, known_ops=MYSQL_OPS)
+    return parser(
+        mysql_string,
+        mysql_ident,
+        known_ops=MYSQL_OPS,
+        # https://dev.mysql.com/doc/refman/8.0/en/ansi-diff-comments.html
+        line_comment=Regex(r"--(?=\s|$)") + restOfLine,
+    )
 
 
 def sqlserver_parser():
@@ -68,9 +74,15 @@ def sqlserver_parser():
     return parser(ansi_string, combined_ident, sqlserver=True)
 
 
-def parser(literal_string, ident, sqlserver=False, known_ops=KNOWN_OPS):
+def parser(
+    literal_string,
+    ident,
+    sqlserver=False,
+    known_ops=KNOWN_OPS,
+    line_comment=Literal("--") + restOfLine,
+):
     with Whitespace() as engine:
-        engine.add_ignore(Literal("--") + restOfLine)
+        engine.add_ignore(line_comment)
         engine.add_ignore(Literal("#") + restOfLine)
         engine.add_ignore(Literal("/*") + SkipTo("*/", include=True))
 
@@ -343,7 +355,9 @@ def parser(literal_string, ident, sqlserver=False, known_ops=KNOWN_OPS):
                         (
                             o,
                             1 if o in unary_ops else (3 if isinstance(o, tuple) else 2),
-                            unary_ops.get(o, LEFT_ASSOC),
+                            RIGHT_ASSOC
+                            if isinstance(o, tuple)
+                            else unary_ops.get(o, LEFT_ASSOC),
                             to_lambda if o is LAMBDA else to_json_operator,
                         )
                         for o in known_ops
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 543c9a1..bc5429a 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -150,9 +150,10 @@ def to_json_operator(tokens):
         return Call(op, [tokens[1]], {})
     elif length == 5:
         # TRINARY OPERATOR
-        return Call(
-            tokens.tokens[1].type.parser_name, [tokens[0], tokens[2], tokens[4]], {}
-        )
+        op = tokens[1]
+        if not isinstance(op, text):
+            op = op.type.parser_name
+        return Call(op, [tokens[0], tokens[2], tokens[4]], {})
 
     op = tokens[1]
     if not isinstance(op, text):
-- 
2.43.0


From fb579537eb0b5134ef93aa70ce1e60267a8418d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 16/50] fix: quoted names keep their characters and quotes,
 reserved words of MySQL are quoted

---
 sql_parsing/formatting.py | 35 ++++++++++++++++++++++++++++++-----
 sql_parsing/utils.py      |  3 ++-
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 3d7fc90..2be43e3 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -19,7 +19,30 @@ from sql_parsing.keywords import RESERVED, join_keywords, precedence
 from sql_parsing.utils import binary_ops, is_set_op
 
 MAX_PRECEDENCE = 100
-VALID = re.compile(r"^[a-zA-Z_]\w*$")
+VALID = re.compile(r"^[a-zA-Z_]\w*\Z")
+
+# https://dev.mysql.com/doc/refman/8.0/en/keywords.html WITHOUT TYPES AND WORDS THAT ARE VALUES
+MYSQL_RESERVED = frozenset(
+    """
+    ACCESSIBLE ADD ALL ALTER ANALYZE AND AS ASC ASENSITIVE BEFORE BETWEEN BOTH BY CALL CASCADE CASE
+    CHANGE CHECK COLLATE COLUMN CONDITION CONSTRAINT CONTINUE CONVERT CREATE CROSS CUBE CUME_DIST CURSOR
+    DATABASE DATABASES DAY_HOUR DAY_MICROSECOND DAY_MINUTE DAY_SECOND DECLARE DELAYED DELETE DENSE_RANK
+    DESC DESCRIBE DETERMINISTIC DISTINCT DISTINCTROW DIV DROP EACH ELSE ELSEIF EMPTY ENCLOSED ESCAPED
+    EXCEPT EXISTS EXIT EXPLAIN FETCH FIRST_VALUE FOR FORCE FOREIGN FROM FULLTEXT FUNCTION GENERATED GET
+    GRANT GROUP GROUPING GROUPS HAVING HIGH_PRIORITY HOUR_MICROSECOND HOUR_MINUTE HOUR_SECOND IF IGNORE
+    IN INDEX INFILE INNER INOUT INSENSITIVE INSERT INTERSECT INTERVAL INTO IO_AFTER_GTIDS
+    IO_BEFORE_GTIDS IS ITERATE JOIN JSON_TABLE KEY KEYS KILL LAG LAST_VALUE LATERAL LEAD LEADING LEAVE
+    LEFT LIKE LIMIT LINEAR LINES LOAD LOCK LOOP LOW_PRIORITY MATCH MINUTE_MICROSECOND MINUTE_SECOND MOD
+    MODIFIES NATURAL NOT NO_WRITE_TO_BINLOG NTH_VALUE NTILE OF ON OPTIMIZE OPTIMIZER_COSTS OPTION
+    OPTIONALLY OR ORDER OUT OUTER OUTFILE OVER PARTITION PERCENT_RANK PRIMARY PROCEDURE PURGE RANGE RANK
+    READ READS READ_WRITE RECURSIVE REFERENCES REGEXP RELEASE RENAME REPEAT REPLACE REQUIRE RESIGNAL
+    RESTRICT RETURN REVOKE RIGHT RLIKE ROW ROWS ROW_NUMBER SCHEMA SCHEMAS SECOND_MICROSECOND SELECT
+    SENSITIVE SEPARATOR SET SHOW SIGNAL SPATIAL SPECIFIC SQL SQLEXCEPTION SQLSTATE SQLWARNING
+    SQL_BIG_RESULT SQL_CALC_FOUND_ROWS SQL_SMALL_RESULT SSL STARTING STORED STRAIGHT_JOIN SYSTEM TABLE
+    TERMINATED THEN TO TRAILING TRIGGER UNDO UNION UNIQUE UNLOCK UPDATE USAGE USE USING VALUES VARYING
+    VIRTUAL WHEN WHERE WHILE WINDOW WITH WRITE XOR YEAR_MONTH ZEROFILL
+    """.split()
+)
 
 
 # QUERIES ARE IN PARENTHESES, OTHER EXPRESSIONS ARE NOT
@@ -33,6 +56,8 @@ def is_query(json):
 
 
 def is_keyword(identifier):
+    if identifier.upper() in MYSQL_RESERVED:
+        return True
     try:
         RESERVED.parse_string(identifier)
         return True
@@ -534,11 +559,11 @@ class Formatter:
             return f"SELECT {param}"
 
     def delete(self, json, prec):
-        param = "FROM " + json['delete']
+        param = "FROM " + self.dispatch(json['delete'])
         return f"DELETE {param}"
 
     def update(self, json, prec):
-        param = json['update']
+        param = self.dispatch(json['update'])
         return f"UPDATE {param}"
 
     def set(self, json, prec):
@@ -612,7 +637,7 @@ class Formatter:
             acc.append("OVERWRITE")
         else:
             acc.append("INTO")
-        acc.append(json["insert"])
+        acc.append(self.dispatch(json["insert"]))
 
         if "columns" in json:
             acc.append(self.sql_list(listwrap(json["columns"])))
@@ -651,7 +676,7 @@ class Formatter:
         values = json['drop']
         if 'table' in values:
             acc.append("TABLE")
-            acc.append(values['table'])
+            acc.append(self.dispatch(values['table']))
         return " ".join(acc)
 
 
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index bc5429a..eeea1e7 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -565,7 +565,8 @@ def unquote(tokens):
     elif val.startswith('"') and val.endswith('"'):
         val = '"' + val[1:-1].replace('""', '\\"') + '"'
     elif val.startswith("`") and val.endswith("`"):
-        val = '"' + val[1:-1].replace("``", "`").replace('"', '\\"') + '"'
+        # NO ESCAPES OTHER THAN DOUBLED QUOTES
+        return val[1:-1].replace("``", "`").replace(".", "\\.")
     elif val.startswith("[") and val.endswith("]"):
         val = '"' + val[1:-1].replace("]]", "]").replace('"', '\\"') + '"'
     elif val.startswith("+"):
-- 
2.43.0


From 63285e28641828a297efa8805594c49e51908d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 17/50] fix: constants in the select list are part of the
 result rows

select n, 1 returned rows without the constant.
---
 scheduler/handers/clause/sql_select.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index d237736..5b3a3f4 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -57,6 +57,12 @@ class SQLSelect(Rewriter):
             return select_val
         if isinstance(select_val, list):
             return [self.rewrite(v['value'], table) for v in select_val]
+        if isinstance(select_val, (int, float)) or isinstance(select_val, dict) and set(select_val) in ({'literal'}, {'null'}):
+            # a constant
+            self.select_state.append("plaintext")
+            self.select_columns.append(str(select_val))
+            self.select_types.append("")
+            return select_val
         if isinstance(select_val, str):
             self.select_columns.append(select_val)
             if isinstance(table, list):
-- 
2.43.0


From f83b939e3d20b64dc0d356e4454a9f0a79ba1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 18/50] fix: refuse joins on columns whose equal values are
 stored differently

A join of a plaintext with an encrypted column, or of encrypted columns with different keys or types, silently returned no rows.
---
 scheduler/handers/clause/sql_where.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index b0dafcb..5e26748 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -24,12 +24,14 @@ class SQLWhere(Rewriter):
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
                                            self.encrypt_operand(v[1], col, col[v[0]])]}
                     else:
-                        # We don't handle the situation when the join items are plaintext and cipher, but the sql still
-                        # works. It just returns empty result...
                         t_name, col_name = self.split_table_col(v[0], table)
                         t_name1, col_name1 = self.split_table_col(v[1], table)
                         col = self.db_meta[t_name]['columns'][col_name]
                         col1 = self.db_meta[t_name1]['columns'][col_name1]
+                        if col['plaintext'] != col1['plaintext'] or not col['plaintext'] and \
+                                (col['key'] != col1['key'] or col['type'] != col1['type']):
+                            # equal values are stored as different values
+                            raise Exception("join of {} and {} is not supported".format(v[0], v[1]))
                         col_name = col_name if col['plaintext'] else col['enc-cols'][cipher]
                         col_name1 = col_name1 if col1['plaintext'] else col1['enc-cols'][cipher]
                         return {
-- 
2.43.0


From 273c82208d0e126b9868257018345f25f14aecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:34 +0000
Subject: [PATCH 19/50] fix: ORDER BY keeps DESC and accepts several columns

The direction of an encrypted column was dropped, a list of columns failed, and an alias that is also a column name sorted by that column.
---
 scheduler/handers/clause/function.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 2211909..ca3f652 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -6,8 +6,15 @@ class OrderBy(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, orderby_val, table, json=None):
+        if isinstance(orderby_val, list):
+            return [self.rewrite(i, table, json) for i in orderby_val]
+        selected = (json or {}).get('select', (json or {}).get('select_distinct'))
+        for i in selected if isinstance(selected, list) else [selected]:
+            if isinstance(i, dict) and i.get('name') == orderby_val['value'] != i['value']:
+                # the name is the alias of another column
+                raise Exception("order by alias {} is not supported".format(i['name']))
         col = self.db_meta[table]['columns'][orderby_val['value']]
         if col['plaintext']:
             return orderby_val
         else:
-            return {'value': col['enc-cols']['order-preserving']}
+            return dict(orderby_val, value=col['enc-cols']['order-preserving'])
-- 
2.43.0


From cb8f0ea37af975f45a350a78f9604b81b96300e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:34 +0000
Subject: [PATCH 20/50] fix: refuse functions and sums of encrypted columns in
 the select list

MAX(DISTINCT a), -MAX(a), TRIM(s), a + n were calculated on ciphertexts; n + n shifted the columns after it or failed.
---
 scheduler/handers/clause/sql_select.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index 5b3a3f4..733eab3 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -115,7 +115,8 @@ class SQLSelect(Rewriter):
                     v0, v1 = self.rewrite(v[0], table), self.rewrite(v[1], table)
                     cipher_text = self.select_state.pop()
                     self.select_types.pop()
-                    assert self.select_state[-1] == self.select_state[-2] and \
+                    self.select_columns.pop()
+                    assert self.select_state[-1] == cipher_text and \
                            cipher_text in ['plaintext', 'arithmetic'], f'{v[0]}+{v[1]} not allowed'
 
                     if cipher_text == 'plaintext':
@@ -137,5 +138,8 @@ class SQLSelect(Rewriter):
                         p = (p1[0] * p1[0]) ** 2
                         result['mod'] = [{'mul': [v0, v1]}, p]
                 else:
+                    start = len(self.select_state)
                     result[k] = self.rewrite(v, table)
+                    if k not in ('value', 'any_value') and any(state != 'plaintext' for state in self.select_state[start:]):
+                        raise Exception("{} of an encrypted column is not supported".format(k))
             return result
-- 
2.43.0


From 471eb031e7b40be38a8d7369d5454c8b39a07023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 21/50] fix: CREATE TABLE keeps the DEFAULT values of its
 columns

---
 scheduler/handers/table.py | 68 +++++++++++++-------------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 0424c3b..77cf984 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -4,7 +4,7 @@ import string
 import random
 
 from sql_parsing import parse_mysql as parse
-from scheduler.crypto import encrypt
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.schema.metadata import Delta
 from scheduler.schema.metadata import element_type, fuzzy_type_fixed, arithmetic_type_fixed, sm4_type_fixed
 
@@ -40,14 +40,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + str(t_v) + ')'
                 else:
                     enc_col_type = t_k
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    default_value = ' DEFAULT ' + default_value
-                else:
-                    default_value = ''
+                default_value = get_default(col)
                 enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
                 columns_kv[col_name]['plaintext'] = True
                 columns_kv[col_name]['type'] = t_k
@@ -65,58 +58,26 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
                     enc_col_type = v
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    key = encrypted_cols[col['name']]['key']
-                    default_value = ' DEFAULT ' + encrypt.AESCipher(key).encrypt(default_value)
-                else:
-                    default_value = ''
+                default_value = get_default(col, encrypted_cols, k)
                 enc_columns.append(enc_col_name + ' ' + enc_col_type + is_nullable + primary_key_plus + default_value)
                 columns_kv[col_name]['enc-cols'].update({k: enc_col_name})
         if encrypted_cols[col['name']]['fuzzy']:
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, encrypted_cols, 'fuzzy')
             enc_columns.append(enc_col_name + ' ' + fuzzy_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"fuzzy": enc_col_name})
         if encrypted_cols[col['name']].get('arithmetic'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('homomorphic_key', "")
-                default_value = ' DEFAULT ' + encrypt.HomomorphicCipher(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, encrypted_cols, 'arithmetic')
             enc_columns.append(enc_col_name + ' ' + arithmetic_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"arithmetic": enc_col_name})
             columns_kv[col_name]['homomorphic_key'] = encrypted_cols[col['name']].get('homomorphic_key', "")
         if encrypted_cols[col['name']].get('sm4'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4_key', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, encrypted_cols, 'sm4')
             enc_columns.append(enc_col_name + ' ' + sm4_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"sm4": enc_col_name})
             columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
@@ -148,6 +109,23 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     return query, {'table': table_name}
 
 
+def get_default(col, encrypted_cols=None, enc=None):
+    if 'default' not in col:
+        return ''
+    value = col['default']
+    if enc:
+        col_type = list(col['type'].keys())[0]
+        columns = {col['name']: dict(encrypted_cols[col['name']], type=col_type)}
+        value = SQLValues({'': {'columns': columns}}).encrypt_value('', col['name'], value, enc)['value']
+    if isinstance(value, dict) and isinstance(value.get('literal'), str):
+        value = "'" + value['literal'].replace('\\', '\\\\').replace("'", "''") + "'"
+    elif isinstance(value, dict) and 'null' in value:
+        value = 'NULL'
+    elif isinstance(value, dict):
+        raise Exception("Not support default value {}".format(value))
+    return ' DEFAULT ' + str(value)
+
+
 def get_enc_columns(columns, columns_info, cipher='symmetric'):
     if not isinstance(columns, list):
         columns = [columns]
-- 
2.43.0


From 5ff9ef4b08e20788c7e1743e2ff2d710bf975f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 22/50] fix: CREATE TABLE keeps ENGINE, AUTO_INCREMENT, CHARSET
 and COLLATE of the table

---
 scheduler/handers/table.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 77cf984..ffd2f4e 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -92,17 +92,18 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         # print('constraint', constraint)
         enc_constraint.append(get_constraint_key(constraint, columns_kv, db))
     enc_constraint = "," + ",".join(enc_constraint) if enc_constraint else ""
-    engine = 'ENGINE = ' + json.get('engine') if json.get('engine') else ''
-    table_auto_increment = 'AUTO_INCREMENT = ' + json.get('auto_increment') if json.get('auto_increment') else ''
-    table_collate = 'COLLATE = ' + json.get('collate') if json.get('collate') else ''
+    engine = ' ENGINE = ' + create_table['engine'] if create_table.get('engine') else ''
+    table_auto_increment = ' AUTO_INCREMENT = ' + str(create_table['auto_increment']) if create_table.get('auto_increment') else ''
+    table_collate = ' COLLATE = ' + create_table['collate'] if create_table.get('collate') else ''
+    table_charset = ' DEFAULT CHARSET = ' + create_table['default_charset'] if create_table.get('default_charset') else ''
     query = 'CREATE TABLE IF NOT EXISTS ' + anonymous_table + '(' + ",".join(enc_columns) + enc_constraint + ')' \
-            + engine + table_auto_increment + table_collate + ';'
+            + engine + table_auto_increment + table_charset + table_collate + ';'
 
     table_meta = {
         table_name: {
             'anonymous': anonymous_table,
             'columns': columns_kv,
-            'comment': json.get('comment', {}).get('literal')
+            'comment': create_table.get('comment', {}).get('literal')
         }
     }
     Delta().update_delta(db, table_meta)
-- 
2.43.0


From cb85dfb7286fec96e5972db2a80cde76ae01c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 23/50] fix: CREATE TABLE accepts decimal(10,2), unsigned and a
 display width

---
 scheduler/handers/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index ffd2f4e..5f9d03e 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -35,11 +35,14 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         if col.get('comment'):
             columns_kv[col_name]['comment'] = col.get('comment', {}).get('literal')
         if col['name'] not in encrypted_cols:
+            unsigned = ' unsigned' if col_type.pop('unsigned', None) else ''
             for t_k, t_v in col_type.items():
                 if t_v:
+                    t_v = ','.join(str(i) for i in t_v) if isinstance(t_v, list) else t_v
                     enc_col_type = t_k + '(' + str(t_v) + ')'
                 else:
                     enc_col_type = t_k
+                enc_col_type += unsigned
                 default_value = get_default(col)
                 enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
                 columns_kv[col_name]['plaintext'] = True
@@ -53,7 +56,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
             for t_k, t_v in col_type.items():
                 columns_kv[col_name]['type'] = t_k
-                if t_v:
+                if t_v and callable(v):
                     t_k, t_l = v(t_k, t_v)
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
-- 
2.43.0


From 5887660248042c22891543382f3c39e3034d9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 24/50] fix: CREATE TABLE keeps UNIQUE and refuses column
 constraints it cannot carry over

---
 scheduler/handers/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 5f9d03e..710d31b 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -24,6 +24,9 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     for col in columns:
         auto_increment = '' if not col.get('auto_increment') else ' auto_increment '
         primary_key = '' if not col.get('primary_key') else ' primary key' + auto_increment
+        primary_key += ' unique ' if col.get('unique') else ''
+        if 'check' in col or 'references' in col:
+            raise Exception("Not support check or references in the definition of column {}".format(col['name']))
         col_name = col['name']
         col_type = col['type']
         columns_kv[col_name] = {}
-- 
2.43.0


From 45fc69cd6c162bbc575cfaf0f66eb69ed41ff905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 25/50] fix: CREATE TABLE keeps auto_increment of a column
 whose primary key is declared separately

---
 scheduler/handers/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 710d31b..57fa3b9 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -23,7 +23,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     columns = columns if isinstance(columns, list) else [columns]
     for col in columns:
         auto_increment = '' if not col.get('auto_increment') else ' auto_increment '
-        primary_key = '' if not col.get('primary_key') else ' primary key' + auto_increment
+        primary_key = auto_increment if not col.get('primary_key') else ' primary key' + auto_increment
         primary_key += ' unique ' if col.get('unique') else ''
         if 'check' in col or 'references' in col:
             raise Exception("Not support check or references in the definition of column {}".format(col['name']))
-- 
2.43.0


From da5517c4cc9bea7efb3ccb756b4b21fd35b53e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:24 +0000
Subject: [PATCH 26/50] fix: refuse foreign keys between columns whose equal
 values are stored differently

---
 scheduler/handers/table.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 57fa3b9..adb0f30 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -153,10 +153,25 @@ def get_constraint_key(constraint, columns_info, db=None):
     reference_phrase = get_reference_phrase(reference, db) if reference else ''
     columns = key_cons.get('columns')
     enc_columns = get_enc_columns(columns, columns_info)
+    if reference:
+        check_reference(columns, columns_info, reference, db)
     key_cons_phrase = constraint_name + key + '(' + ','.join(enc_columns) + ')' + reference_phrase
     return key_cons_phrase
 
 
+def check_reference(columns, columns_info, reference, db):
+    reference_info = Delta().meta[db][reference['table']]['columns']
+    reference_columns = reference['columns']
+    columns = columns if isinstance(columns, list) else [columns]
+    reference_columns = reference_columns if isinstance(reference_columns, list) else [reference_columns]
+    for i, j in zip(columns, reference_columns):
+        col, col1 = columns_info[i], reference_info[j]
+        if col['plaintext'] != col1['plaintext'] or not col['plaintext'] and \
+                (col['key'] != col1['key'] or col['type'] != col1['type']):
+            # equal values are stored as different values
+            raise Exception("foreign key of {} to {} is not supported".format(i, j))
+
+
 def get_reference_phrase(reference, db):
     table_meta = Delta().meta[db][reference['table']]
     table_name = table_meta['anonymous']
-- 
2.43.0


From 357ffcc1b7de1114fb28c21a17c651a54996f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 27/50] fix: the stored metadata of a table is replaced as a
 whole and never merged with an earlier table's

---
 scheduler/schema/metadata.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0ad152d..d513906 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -22,9 +22,11 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
               port=int(config['meta']['mysql']["port"])
             )
         insert_sql = 'insert into p_db_meta values(%s,%s,%s,%s,%s,%s)'
+        delete_sql = 'delete from p_db_meta where database_name = %s and table_name = %s'
     else:
         db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
         insert_sql = 'insert into p_db_meta values (?,?,?,?,?,?)'
+        delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'
 
 
 def test_connection(_db_conn):
@@ -105,26 +107,19 @@ class Delta(object):
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-        if self.meta:
-            if db_name not in self.meta.keys():
-                self.meta.update({db_name: table_meta})
-            else:
-                self.meta[db_name].update(table_meta)
-
-        else:
-            self.meta = {
-                db_name: table_meta
-            }
         # update database meta
         self.update_db_meta(db_name, table_meta)
+        if db_name not in self.meta.keys():
+            self.meta.update({db_name: table_meta})
+        else:
+            self.meta[db_name].update(table_meta)
         return self.meta
 
     def delete_delta(self, db, table):
         self.meta[db].pop(table, None)
         self.db_conn = test_connection(self.db_conn)
         cu = self.db_conn.cursor()
-        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
-        cu.execute(sql)
+        cu.execute(delete_sql, (db, table))
         if config['meta']['type'] == 'mysql':
             self.db_conn.commit()
         else:
@@ -140,7 +135,14 @@ class Delta(object):
             for key, value in t_value['columns'].items():
                 col_str = json.dumps({key: value})
                 rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
-        cu.executemany(insert_sql, rows)
+        try:
+            # an earlier table of the same name is replaced
+            for table_name in table_meta.keys():
+                cu.execute(delete_sql, (db_name, table_name))
+            cu.executemany(insert_sql, rows)
+        except Exception:
+            self.db_conn.rollback()
+            raise
         if config['meta']['type'] == 'mysql':
             self.db_conn.commit()
         else:
-- 
2.43.0


From 276702fa42ec441bae7ddc8da10c1fa741293cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 28/50] fix: a failed CREATE TABLE leaves the metadata of an
 existing table alone

---
 scheduler/backend/executors/remote_executor.py | 5 +++--
 scheduler/handers/table.py                     | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 9b3081b..87b2923 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -104,10 +104,11 @@ class RemoteExecutor(AbstractQueryExecutor):
             cursor.execute(enc_query)
         except Exception as e:
             logger.info(e)
-            if query_type == QueryType.CREATE:
-                self.meta.delete_delta(self.str_db, self.table['table'])
             self.conn.close()
             raise e
+        if query_type == QueryType.CREATE:
+            # the metadata describes tables that exist, a failed statement leaves it as it was
+            self.meta.update_delta(self.str_db, self.table['meta'])
         if query_type == QueryType.DROP:
             self.meta.delete_delta(self.str_db, self.table['table'])
         elif query_type == QueryType.SELECT:
diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index adb0f30..630b4d2 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -112,8 +112,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
             'comment': create_table.get('comment', {}).get('literal')
         }
     }
-    Delta().update_delta(db, table_meta)
-    return query, {'table': table_name}
+    return query, {'table': table_name, 'meta': table_meta}
 
 
 def get_default(col, encrypted_cols=None, enc=None):
-- 
2.43.0


From 7eabb12c3515b99a3e6a64a1655456b46e92a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:38 +0000
Subject: [PATCH 29/50] fix: metadata kept in sqlite can be written

---
 scheduler/schema/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index d513906..8aea23c 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -30,6 +30,8 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
 
 
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
-- 
2.43.0


From cccc2ae25389019588c90388ab7070168724807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 30/50] fix: ALTER TABLE adds keys and indexes on the stored
 columns of the right table

---
 scheduler/handers/clause/__init__.py | 12 +++++---
 scheduler/handers/clause/sql_key.py  | 41 ++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 4 deletions(-)
 create mode 100644 scheduler/handers/clause/sql_key.py

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index 6a69e92..393c831 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -7,6 +7,7 @@ from scheduler.handers.clause.function import OrderBy
 from scheduler.handers.clause.sql_columns import SQLColumns
 from scheduler.handers.clause.sql_values import SQLValues, SQLRows, SQLUnion
 from scheduler.handers.clause.sql_drop import SQLDrop
+from scheduler.handers.clause.sql_key import SQLKey, SQLTextKey, SQLReferenceTable, SQLReference
 
 clause = {
     'insert': AnonymousTable,
@@ -23,10 +24,13 @@ clause = {
     'query': {'select': SQLValues, 'union_all': SQLUnion},
     'values': SQLRows,
     'alter': AnonymousTable,
-    'reference_table': AnonymousTable,
-    'add primary key': SQLSelect,
-    'add foreign key': SQLSelect,
-    'reference_feature': SQLSelect
+    'reference_table': SQLReferenceTable,
+    'add primary key': SQLKey,
+    'add foreign key': SQLKey,
+    'add index feature': SQLKey,
+    'add unique feature': SQLKey,
+    'add fulltext feature': SQLTextKey,
+    'reference_feature': SQLReference
 }
 
 table_key = [
diff --git a/scheduler/handers/clause/sql_key.py b/scheduler/handers/clause/sql_key.py
new file mode 100644
index 0000000..4d96717
--- /dev/null
+++ b/scheduler/handers/clause/sql_key.py
@@ -0,0 +1,41 @@
+from scheduler.handers.clause.rewriter import Rewriter
+
+
+class SQLKey(Rewriter):
+    # the columns of a key or an index, [{'value': column}, ...]
+    def __init__(self, db_meta):
+        super().__init__(db_meta)
+
+    def rewrite(self, columns, table, json=None):
+        return [{'value': self.get_column(column['value'], table)} for column in columns]
+
+    def get_column(self, column, table):
+        col = self.db_meta[table]['columns'][column]
+        return column if col['plaintext'] else col['enc-cols']['symmetric']
+
+
+class SQLTextKey(SQLKey):
+    # the columns of a fulltext index
+    def get_column(self, column, table):
+        if not self.db_meta[table]['columns'][column]['plaintext']:
+            raise Exception("fulltext index of an encrypted column is not supported")
+        return column
+
+
+class SQLReferenceTable(SQLKey):
+    def rewrite(self, value, table, json=None):
+        return self.db_meta[json['reference_table']]['anonymous']
+
+
+class SQLReference(SQLKey):
+    # the referenced columns of a foreign key
+    def rewrite(self, columns, table, json=None):
+        reference_table = json['reference_table']
+        for column, reference in zip(json['add foreign key'], columns):
+            col = self.db_meta[table]['columns'][column['value']]
+            col1 = self.db_meta[reference_table]['columns'][reference['value']]
+            if col['plaintext'] != col1['plaintext'] or not col['plaintext'] and \
+                    (col['key'] != col1['key'] or col['type'] != col1['type']):
+                # equal values are stored as different values
+                raise Exception("foreign key of {} to {} is not supported".format(column['value'], reference['value']))
+        return super().rewrite(columns, reference_table, json=json)
-- 
2.43.0


From f90369f8d68370d01062d8f7b3815f075b820190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 31/50] fix: DROP TABLE IF EXISTS drops the table

---
 scheduler/handers/clause/sql_drop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_drop.py b/scheduler/handers/clause/sql_drop.py
index 00b842f..0f0ab47 100644
--- a/scheduler/handers/clause/sql_drop.py
+++ b/scheduler/handers/clause/sql_drop.py
@@ -8,5 +8,5 @@ class SQLDrop(Rewriter):
     def rewrite(self, columns, table, json=None):
         result = {}
         for key, value in columns.items():
-            result[key] = self.db_meta[value]['anonymous']
+            result[key] = value if key == 'if_exists' else self.db_meta[value]['anonymous']
         return result
-- 
2.43.0


From bd17165bfca1ec4ae4cbd838ab7b992c3b5d9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:44 +0000
Subject: [PATCH 32/50] fix: ALTER TABLE ... ADD UNIQUE / INDEX without a name
 is carried out

---
 sql_parsing/__init__.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 919d09c..deb47d0 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -199,29 +199,30 @@ def parse_alter_key(sql):
 
 
 def format_alter_key(json):
-    if json.get('add primary key'):
+    if 'add primary key' in json:
         return f"alter table {json['alter']} " \
                f"add primary key({','.join([i['value'] for i in json['add primary key']])});"
-    if json.get('drop primary key'):
+    if 'drop primary key' in json:
         return f"alter table {json['alter']} drop primary key;"
-    if json.get('add foreign key'):
+    if 'add foreign key' in json:
         return f"alter table {json['alter']} add constraint {json['add constraint']} " \
                f"foreign key({','.join([i['value'] for i in json['add foreign key']])}) " \
                f"REFERENCES {json['reference_table']}" \
                f"({','.join([i['value'] for i in json['reference_feature']])});"
-    if json.get('drop foreign key'):
+    if 'drop foreign key' in json:
         return f"alter table {json['alter']} drop foreign key {json['drop foreign key']};"
-    if json.get('add index'):
+    if 'add index' in json:
         return f"alter table {json['alter']} " \
                f"add index {json['add index']}({','.join([i['value'] for i in json['add index feature']])});"
-    if json.get('add unique'):
+    if 'add unique' in json:
         return f"alter table {json['alter']} " \
                f"add unique {json['add unique']}({','.join([i['value'] for i in json['add unique feature']])});"
-    if json.get('add fulltext'):
+    if 'add fulltext' in json:
         return f"alter table {json['alter']} " \
                f"add fulltext {json['add fulltext']}({','.join([i['value'] for i in json['add fulltext feature']])});"
-    if json.get('drop index'):
+    if 'drop index' in json:
         return f"alter table {json['alter']} drop index {json['drop index']};"
+    raise Exception(f"not supported: alter table {json}")
 
 
 _ = json.dumps
-- 
2.43.0


From 5ad7ddb4999f1a78de4b9adc3eda8c89919da862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:41 +0000
Subject: [PATCH 33/50] fix: an INSERT of several rows is sent in one form,
 whatever the values are

---
 sql_parsing/formatting.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 2be43e3..39ea463 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -644,7 +644,7 @@ class Formatter:
         if "values" in json:
             values = json["values"]
             if all(isinstance(row, dict) for row in values):
-                columns = list(sorted(set(k for row in values for k in row.keys())))
+                columns = list(dict.fromkeys(k for row in values for k in row.keys()))
                 acc.append(self.sql_list(columns))
                 if "if exists" in json:
                     acc.append("IF EXISTS")
@@ -667,6 +667,16 @@ class Formatter:
                 acc.append(
                     "(" + ", ".join(self.dispatch(v['value']) for v in listwrap(query_values["select"])) + ")"
                 )
+            elif set(query_values) == {"union_all"} and all(
+                set(row) == {"select"} and all(isinstance(v, dict) for v in listwrap(row["select"]))
+                for row in query_values["union_all"]
+            ):
+                # rows of constants have one form, whatever the constants are
+                acc.append("VALUES")
+                acc.append(",\n".join(
+                    "(" + ", ".join(self.dispatch(v["value"]) for v in listwrap(row["select"])) + ")"
+                    for row in query_values["union_all"]
+                ))
             else:
                 acc.append(self.dispatch(query_values))
         return " ".join(acc)
-- 
2.43.0


From 11adfc993acd69233a6dfbe906ed1bd39499ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:41 +0000
Subject: [PATCH 34/50] fix: columns selected by the name of their table are
 sent with its anonymous name

---
 scheduler/handers/clause/sql_select.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index 733eab3..c51aef3 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -82,6 +82,7 @@ class SQLSelect(Rewriter):
                 if isinstance(table, str):  # which means table is true table name or some nest table without join
                     t_name, select_val = select_val.split('.') if '.' in select_val else ('',  select_val)
                     col = self.db_meta[table]['columns'][select_val]
+                    t_name = self.db_meta[table]['anonymous'] if t_name == table else t_name
                     t_name = t_name + '.' if t_name else ''
                     self.select_types.append(col['type'])
                     if col['plaintext']:
@@ -91,12 +92,15 @@ class SQLSelect(Rewriter):
                         self.select_state.append(cipher)
                         return t_name + col['enc-cols'][cipher]
                 else:
+                    alias = None
                     if isinstance(table, dict):
                         # 可能是select 嵌套, 从table中获取真正的table_name,
                         # todo: 如何确定table name和被选中的column之间的关系
+                        alias = table.get('name')
                         table = get_nest_table(table)
                     t_name, select_val = select_val.split('.') if '.' in select_val else ('',  select_val)
                     col = self.db_meta[table]['columns'][select_val]
+                    t_name = self.db_meta[table]['anonymous'] if t_name == table and t_name != alias else t_name
                     t_name = t_name + '.' if t_name else ''
                     self.select_types.append(col['type'])
                     if col['plaintext']:
-- 
2.43.0


From af45d9388d567b458d205358298bfaf5ad7e4640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:41 +0000
Subject: [PATCH 35/50] fix: constants and names in HAVING, GROUP BY, SET,
 VALUES and nested queries are not sent unencrypted

---
 scheduler/handers/clause/__init__.py   |  3 +++
 scheduler/handers/clause/rewriter.py   | 19 +++++++++++++-
 scheduler/handers/clause/sql_group.py  | 36 ++++++++++++++++++++++++++
 scheduler/handers/clause/sql_set.py    |  1 +
 scheduler/handers/clause/sql_values.py |  1 +
 scheduler/handers/clause/sql_where.py  | 13 ----------
 6 files changed, 59 insertions(+), 14 deletions(-)
 create mode 100644 scheduler/handers/clause/sql_group.py

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index 393c831..7653437 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -6,6 +6,7 @@ from scheduler.handers.clause.anonymous_table import AnonymousTable
 from scheduler.handers.clause.function import OrderBy
 from scheduler.handers.clause.sql_columns import SQLColumns
 from scheduler.handers.clause.sql_values import SQLValues, SQLRows, SQLUnion
+from scheduler.handers.clause.sql_group import SQLGroupBy, SQLHaving
 from scheduler.handers.clause.sql_drop import SQLDrop
 from scheduler.handers.clause.sql_key import SQLKey, SQLTextKey, SQLReferenceTable, SQLReference
 
@@ -18,6 +19,8 @@ clause = {
     'from': SQLFrom,
     'where': SQLWhere,
     'set': SQLSet,
+    'groupby': SQLGroupBy,
+    'having': SQLHaving,
     'orderby': OrderBy,
     'columns': SQLColumns,
     'drop': SQLDrop,
diff --git a/scheduler/handers/clause/rewriter.py b/scheduler/handers/clause/rewriter.py
index dcf4336..eee14a4 100644
--- a/scheduler/handers/clause/rewriter.py
+++ b/scheduler/handers/clause/rewriter.py
@@ -8,4 +8,21 @@ class Rewriter(object):
     @staticmethod
     def split_table_col(select_val, table):
         select_val_list = select_val.split(".")
-        return select_val_list[0], select_val_list[1]
\ No newline at end of file
+        return select_val_list[0], select_val_list[1]
+
+    def check_plaintext(self, value, col):
+        # an expression that is not rewritten must not depend on an encrypted column
+        if isinstance(value, dict):
+            if 'from' in value:
+                raise Exception("a nested query is not supported here")
+            for k, v in value.items():
+                if k != 'literal':
+                    self.check_plaintext(v, col)
+        elif isinstance(value, list):
+            for v in value:
+                self.check_plaintext(v, col)
+        elif isinstance(value, str):
+            if value.split('.')[0] in self.db_meta and '.' in value:
+                raise Exception("the name of table {} is not rewritten here".format(value.split('.')[0]))
+            if not col or not col.get(value.split('.')[-1], {'plaintext': True})['plaintext']:
+                raise Exception("operation on encrypted column {} is not supported".format(value))
diff --git a/scheduler/handers/clause/sql_group.py b/scheduler/handers/clause/sql_group.py
new file mode 100644
index 0000000..c0c0b99
--- /dev/null
+++ b/scheduler/handers/clause/sql_group.py
@@ -0,0 +1,36 @@
+from scheduler.handers.clause.rewriter import Rewriter
+from scheduler.handers.clause.utils import get_nest_table
+
+
+class SQLGroupBy(Rewriter):
+    # groups and conditions on groups, of plaintext columns only
+    def __init__(self, db_meta):
+        super().__init__(db_meta)
+
+    def rewrite(self, value, table, json=None):
+        self.check_plaintext(value, dict(self.get_aliases(json), **self.get_columns(table)))
+        return value
+
+    def get_columns(self, table):
+        columns = {}
+        for i in table if isinstance(table, list) else [table]:
+            i = get_nest_table(i) if isinstance(i, dict) else i
+            for name, column in self.db_meta[i]['columns'].items():
+                # an encrypted column counts, whichever table it is of
+                if name not in columns or not column['plaintext']:
+                    columns[name] = column
+        return columns
+
+    @staticmethod
+    def get_aliases(json):
+        selected = json.get('select', json.get('select_distinct'))
+        selected = selected if isinstance(selected, list) else [selected]
+        return {i['name']: {'plaintext': False} for i in selected
+                if isinstance(i, dict) and i.get('name') and i['name'] != i['value']}
+
+
+class SQLHaving(SQLGroupBy):
+    def rewrite(self, value, table, json=None):
+        # an alias hides a column
+        self.check_plaintext(value, dict(self.get_columns(table), **self.get_aliases(json)))
+        return value
diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index 6e7e810..9581b84 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -12,6 +12,7 @@ class SQLSet(Rewriter):
         enc_table_meta = self.db_meta[table]
         for k, v in set_value.items():
             if enc_table_meta['columns'][k]['plaintext']:
+                self.check_plaintext(v, enc_table_meta['columns'])
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 1bed40c..3b4b418 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -15,6 +15,7 @@ class SQLValues(Rewriter):
             raise Exception("column count doesn't match value count")
         for col, value in zip(columns, values):
             if enc_table_meta['columns'][col]['plaintext']:
+                self.check_plaintext(value, enc_table_meta['columns'])
                 new_values.append(value)
             else:
                 for enc in enc_table_meta['columns'][col]['enc-cols'].keys():
diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index 5e26748..681c686 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -143,16 +143,3 @@ class SQLWhere(Rewriter):
                 raise Exception("ordering comparison of an integer column with {} is not supported".format(value))
             return encrypt.OPECipher(column['key']).encrypt(value)
         return {'literal': encrypt.AESCipher(column['key']).encrypt(str(value))}
-
-    def check_plaintext(self, value, col):
-        # an expression that is not rewritten must not depend on an encrypted column
-        if isinstance(value, dict):
-            for k, v in value.items():
-                if k != 'literal':
-                    self.check_plaintext(v, col)
-        elif isinstance(value, list):
-            for v in value:
-                self.check_plaintext(v, col)
-        elif isinstance(value, str):
-            if not col or not col.get(value.split('.')[-1], {'plaintext': True})['plaintext']:
-                raise Exception("operation on encrypted column {} is not supported".format(value))
-- 
2.43.0


From bf11e4929aa6defe3304d55a617995f2e2cc6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:20 +0000
Subject: [PATCH 36/50] fix: the metadata of a column with several encryptions
 fits its column

---
 README.md             | 2 +-
 data/schema-mysql.sql | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 6238bcd..1c2f8b3 100644
--- a/README.md
+++ b/README.md
@@ -14,7 +14,7 @@ create table p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 ```
diff --git a/data/schema-mysql.sql b/data/schema-mysql.sql
index 78cd1a3..efd21ad 100644
--- a/data/schema-mysql.sql
+++ b/data/schema-mysql.sql
@@ -156,7 +156,7 @@ IF NOT EXISTS p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 
-- 
2.43.0


From d24956fd4e14a5e53ba43554ea67337f83e646c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:15 +0000
Subject: [PATCH 37/50] fix: a table with two columns of one name is refused

---
 scheduler/handers/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 630b4d2..d2d82c2 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -29,6 +29,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
             raise Exception("Not support check or references in the definition of column {}".format(col['name']))
         col_name = col['name']
         col_type = col['type']
+        if col_name in columns_kv:
+            raise Exception("Duplicate column name {}".format(col_name))
         columns_kv[col_name] = {}
         columns_kv[col_name]['enc-cols'] = {}
         if 'nullable' in col:
-- 
2.43.0


From 1f83cb7bab9931c3dd7b947a103b99017ee192bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:15 +0000
Subject: [PATCH 38/50] fix: metadata that could not be committed is not left
 for the next commit

---
 scheduler/schema/metadata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 8aea23c..b5f7e6a 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -121,11 +121,12 @@ class Delta(object):
         self.meta[db].pop(table, None)
         self.db_conn = test_connection(self.db_conn)
         cu = self.db_conn.cursor()
-        cu.execute(delete_sql, (db, table))
-        if config['meta']['type'] == 'mysql':
+        try:
+            cu.execute(delete_sql, (db, table))
             self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        except Exception:
+            self.db_conn.rollback()
+            raise
 
     def update_db_meta(self, db_name, table_meta):
         self.db_conn = test_connection(self.db_conn)
@@ -142,13 +143,11 @@ class Delta(object):
             for table_name in table_meta.keys():
                 cu.execute(delete_sql, (db_name, table_name))
             cu.executemany(insert_sql, rows)
+            self.db_conn.commit()
         except Exception:
+            # nothing of it is left for the next commit
             self.db_conn.rollback()
             raise
-        if config['meta']['type'] == 'mysql':
-            self.db_conn.commit()
-        else:
-            cu.connection.commit()
 
     @classmethod
     def load_delta(cls):
-- 
2.43.0


From 0a02b6721c2185dc0b6905ca5dfb2d4c6d928213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:47 +0000
Subject: [PATCH 39/50] fix: a process that could not read the metadata at its
 first statement reads it again at the next

---
 scheduler/schema/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index b5f7e6a..c137653 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -103,9 +103,10 @@ class Delta(object):
 
     def __new__(cls, *args, **kwargs):
         if Delta.__instance is None:
-            Delta.__instance = object.__new__(cls, *args, **kwargs)
-            cls.db_conn = db_conn
+            cls.db_conn = test_connection(db_conn)
             cls.meta = cls.load_delta()
+            # only a description that could be read is kept
+            Delta.__instance = object.__new__(cls, *args, **kwargs)
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-- 
2.43.0


From 589f7a4b70a4e535b8932f8d9822bccdec7c39c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:05 +0000
Subject: [PATCH 40/50] fix: SUM and AVG of encrypted columns with NULLs, no
 rows, GROUP BY, joins, expressions and other requests at the same time

---
 .../backend/executors/remote_executor.py      | 29 +++++++-------
 scheduler/handers/rewrite_hander.py           |  5 ++-
 scheduler/schema/metadata.py                  | 39 +++++++------------
 3 files changed, 32 insertions(+), 41 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 87b2923..10266de 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -6,6 +6,7 @@ import numpy as np
 import mysql.connector
 
 from scheduler.handers.rewrite_hander import Rewriter
+from scheduler.handers.clause.utils import get_nest_table
 from scheduler.backend.executors.abstract_executor import AbstractQueryExecutor
 from scheduler.compile.keywords_lists import QueryType
 from dbutils.pooled_db import PooledDB
@@ -92,9 +93,7 @@ class RemoteExecutor(AbstractQueryExecutor):
                 #     limit = self.conn_info['limit']
                 #     if self.rewriter.limit < 0:
                 #         enc_query = enc_query + " limit {}".format(limit)
-                if not isinstance(self.table, dict):
-                    # todo: 长达支持table为dict
-                    enc_query = self.inject_procedure(enc_query, use_cursor)
+                enc_query = self.inject_procedure(enc_query, use_cursor)
             cursor = self.conn.cursor()
         except Exception as e:
             logger.info(e)
@@ -189,24 +188,26 @@ class RemoteExecutor(AbstractQueryExecutor):
         return self.rewriter.select.select_types
 
     def inject_procedure(self, enc_query, use_cursor=True):
-        # todo: string match is workaround
-        if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
+        arithmetic = self.rewriter.select.select_state.count('arithmetic')
+        if not arithmetic:
             return enc_query
-        sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table)
-        if not need_paillier_procedure:
-            return enc_query
-        for feature in set(sum_feature_name_list+avg_feature_name_list):
+        json = self.rewriter.table_json
+        if isinstance(self.table, list) or 'groupby' in json:
+            raise Exception("SUM and AVG of encrypted columns are not supported with joins or GROUP BY")
+        table = get_nest_table(self.table) if isinstance(self.table, dict) else self.table
+        sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name = \
+            Delta.get_paillier_procedure_info(json, self.str_db, table)
+        if need_paillier_procedure != arithmetic:
+            # the server cannot add up the ciphertexts of anything else
+            raise Exception("SUM and AVG are only supported for encrypted columns themselves")
+        for feature in sorted(set(sum_feature_name_list+avg_feature_name_list)):
             Delta.set_sum_feature(self.conn.cursor(), feature, table_name)
-        if avg_feature_name_list:
-            Delta.set_total_feature_num(self.conn.cursor(), table_name)
         for feature in sum_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
             enc_query = Delta.modify_sum_query(enc_query, feature[0], use_cursor)
         for feature in avg_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
-            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor, 'TotalFeature')
-        enc_query = enc_query + ' limit 1'
+            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor)
         return enc_query
 
     def get_db_meta(self):
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 0afc3fb..8a3ea17 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -15,6 +15,7 @@ class Rewriter(Clause):
     def __init__(self, db, encrypted_cols=None):
         super().__init__(db, encrypted_cols)
         self.limit = float('-inf')
+        self.table_json = None
 
     def rewrite_query(self, query):
         """
@@ -70,8 +71,8 @@ class Rewriter(Clause):
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
-        # record json in Delta
-        Delta.table_json = json
+        # SUM and AVG of encrypted columns need it again
+        self.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json, ansi_quotes=False), table
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index c137653..15e8ab4 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -1,10 +1,7 @@
-import re
 import json
 import yaml
 import sqlite3
-from copy import deepcopy
 
-from sql_parsing import parse_mysql as parse
 from sql_parsing import format
 
 import mysql.connector
@@ -98,7 +95,6 @@ FUNC_CIPHERS = {
 class Delta(object):
     __instance = None
     meta = None
-    table_json = None
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
@@ -177,16 +173,13 @@ class Delta(object):
         new_feature_name = feature_name.replace('.', '_')
         cursor.execute('SET @rownr=0;')
         cursor.execute('SET @sum=1;')
-        sum_sql = 'select sum from (select @rownr:=@rownr+1, @sum:=(@sum*{})%{} as sum from {} ' \
+        # NULL neither changes the sum nor counts, the sum of nothing is NULL
+        sum_sql = 'select sum from (select @rownr:=@rownr+1, @sum:=(@sum*coalesce({},1))%{} as sum from {} ' \
                   'order by @rownr desc limit 1) tmp'.format(feature_name, n_square, table_name)
-        set_sql = f'set @sum{new_feature_name} = ({sum_sql})'
+        cursor.execute(f'set @num{new_feature_name} = (select count({feature_name}) from {table_name})')
+        set_sql = f'set @sum{new_feature_name} = if(@num{new_feature_name}>0, ({sum_sql}), null)'
         cursor.execute(set_sql)
 
-    @staticmethod
-    def set_total_feature_num(cursor, table_name):
-        cursor.execute(f'SET @numTotalFeature = (select count(*) from {table_name});')
-
-
     @staticmethod
     def create_paillier_sum_procedure(cursor, feature, table_name, use_cursor):
         if not use_cursor:
@@ -209,14 +202,9 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name):
+    def get_paillier_procedure_info(cls, json, db, table_name):
         sum_feature_name_list = []
         avg_feature_name_list = []
-        if cls.table_json:
-            json = deepcopy(cls.table_json)
-        else:
-            json = parse(enc_query)
-        json.pop('limit', None)
         json_select = json['select']
         if not isinstance(json_select, list):
             json_select = [json_select['value']]
@@ -238,22 +226,23 @@ class Delta(object):
         need_paillier_procedure = len(sum_feature_name_list) + len(avg_feature_name_list)
         table_name = None
         if need_paillier_procedure:
-            enc_query = format(json)
-            table_name = enc_query[re.search('FROM ', enc_query).span()[1]:]
-        return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query
+            # the rows that are added up, whatever is done with the sum
+            rows_json = {key: json[key] for key in ('from', 'where') if key in json}
+            table_name = format({'select': '*', **rows_json}, ansi_quotes=False)[len('SELECT * FROM '):]
+        return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name
 
     @staticmethod
     def modify_sum_query(enc_query, feature_name, use_cursor):
         new_feature_name = feature_name.replace('.', '_')
         if not use_cursor:
             return enc_query.replace('SUM({})'.format(feature_name), "CONCAT(GROUP_CONCAT({}), ',SUM')".format(new_feature_name))
-        return enc_query.replace('SUM({})'.format(feature_name), '@sum{}'.format(new_feature_name))
+        # one row, whatever the number of rows
+        return enc_query.replace('SUM({})'.format(feature_name), 'MAX(@sum{})'.format(new_feature_name))
 
     @staticmethod
-    def modify_avg_query(enc_query, feature_name, use_cursor, total_feature=None):
+    def modify_avg_query(enc_query, feature_name, use_cursor):
         new_feature_name = feature_name.replace('.', '_')
         if not use_cursor:
             return enc_query.replace('AVG({})'.format(feature_name), "CONCAT(GROUP_CONCAT({}), ',AVG')".format(new_feature_name))
-        num_feature_name = 'TotalFeature' if not total_feature else total_feature
-        return enc_query.replace('AVG({})'.format(feature_name), "concat(@sum{}, ',',@num{})".format(new_feature_name,
-                                                                                                     num_feature_name))
+        return enc_query.replace('AVG({})'.format(feature_name), "MAX(concat(@sum{}, ',',@num{}))".format(new_feature_name,
+                                                                                                          new_feature_name))
-- 
2.43.0


From f14a77bc4ab84fe37a43de933e4e040b683ca7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:02 +0000
Subject: [PATCH 41/50] fix: a shareable request opened a connection beyond
 maxconnections when another one was already shared

---
 dbutils/pooled_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 3265fac..96e38b2 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -290,7 +290,9 @@ class PooledDB:
                 while (not self._shared_cache and self._maxconnections
                         and self._connections >= self._maxconnections):
                     self._wait_lock()
-                if len(self._shared_cache) < self._maxshared:
+                if len(self._shared_cache) < self._maxshared and not (
+                        self._maxconnections
+                        and self._connections >= self._maxconnections):
                     # shared cache is not full, get a dedicated connection
                     try:  # first try to get it from the idle cache
                         con = self._idle_cache.pop(0)
-- 
2.43.0


From 2ef678b8245c7f2104396428148d1c2965fe8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 42/50] fix: shared connections were counted out twice when the
 pool was closed before they were released

---
 dbutils/pooled_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 96e38b2..6522a45 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -378,7 +378,6 @@ class PooledDB:
                         con.close()
                     except Exception:
                         pass
-                    self._connections -= 1
             self._lock.notify_all()
 
     def __del__(self):
-- 
2.43.0


From bf654a944ed93e9064fe813a1fc6419144edd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:52 +0000
Subject: [PATCH 43/50] fix: /jdbc_query rewrote every statement as CREATE
 TABLE and failed

---
 handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 7710c6a..3485628 100644
--- a/handler.py
+++ b/handler.py
@@ -210,7 +210,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
     @run_on_executor
     def _post(self, *args, **kwargs):
         query_para = json.loads(self.request.body)
-        encrypted_columns = {}
+        encrypted_columns = None
         ciphertext = True
         if "create_table" in query_para.keys():
             query = query_para['create_table']
-- 
2.43.0


From c8b2ad9d56d7f264b5eb188b03ad6ac0c2eeb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:38 +0000
Subject: [PATCH 44/50] fix: /jdbc_query/schema found no tables and left
 columns other than int and varchar out

---
 handler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/handler.py b/handler.py
index 3485628..696a322 100644
--- a/handler.py
+++ b/handler.py
@@ -747,7 +747,7 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
         db_info = cu.fetchall()
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
-            db = connection_url[13:]
+            db = connection_url[13:].split("/")[1]
             cu.execute(
                 "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
             self.write(self.format_result(cu.fetchall()))
@@ -761,21 +761,20 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
         res = []
         table = {}
         for row in tables_info:
-            format_col = {}
             if not table:
                 table["name"] = row[0]
                 table["type"] = "USER TABLE"
                 table["columns"] = []
             col = json.loads(row[1])
             for key, value in col.items():
-                if value['type'] == 'varchar':
+                if value['type'] != 'int':
                     format_col = {
                         "name": key if value['plaintext'] else key + " *",
                         "javaType": "VARCHAR",
                         "dbType": "VARCHAR",
                         "length": 258
                     }
-                elif value['type'] == 'int':
+                else:
                     format_col = {
                         "name": key if value['plaintext'] else key + " *",
                         "javaType": "INTEGER",
@@ -788,5 +787,6 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
                 res.append(json.dumps(table))
                 table = {"name": row[0], "type": "USER TABLE", "columns": []}
                 table["columns"].append(format_col)
-        res.append(json.dumps(table))
+        if table:
+            res.append(json.dumps(table))
         return "[" + ",".join(res) + "]"
-- 
2.43.0


From 49d60a68641654d0eff239e2f0e2b97bb9a5eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:39 +0000
Subject: [PATCH 45/50] fix: /encrypt_sql1 and /encrypt_sql2 gave the plaintext
 statement to the server when a statement on an encrypted table could not be
 rewritten

---
 controller/rewriter.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/controller/rewriter.py b/controller/rewriter.py
index f1c8a0c..17006aa 100644
--- a/controller/rewriter.py
+++ b/controller/rewriter.py
@@ -1,4 +1,7 @@
+import re
+
 from scheduler.backend import execution_context
+from scheduler.schema.metadata import Delta
 import yaml
 
 with open("config.yaml", 'r', encoding='utf-8') as f:
@@ -63,6 +66,12 @@ class ControllerEncryptSql(object):
             return {'encrypt_sql': ''}
 
 
+def names_table(db, sql):
+    """whether the sql names a table whose columns may be encrypted"""
+    return any(re.search(r'(?<!\w){}(?!\w|\s*\(\s*\))'.format(re.escape(table)), sql, re.I)
+               for table in Delta().meta.get(db) or {})
+
+
 class ControllerEncryptSql1(object):
 
     def __init__(self, data):
@@ -75,6 +84,8 @@ class ControllerEncryptSql1(object):
             result = execution_context.encrypt_sql1(self.data['db'], self.data['sql'])
         except Exception as e:
             print(e)
+            if names_table(self.data['db'], self.data['sql']):
+                raise e
             return {'encrypt_sql': self.data['sql'], 'table': ''}
         if result:
             return {'encrypt_sql': result[0], 'table': result[1] }
@@ -94,6 +105,8 @@ class ControllerEncryptSql2(object):
             result = execution_context.encrypt_sql2(self.data['db'], self.data['sql'])
         except Exception as e:
             print(e)
+            if names_table(self.data['db'], self.data['sql']):
+                raise e
             return {'encrypt_sql': self.data['sql'], 'table': ''}
         if result:
             return {'encrypt_sql': result[0], 'table': result[1], 'id': result[2] }
-- 
2.43.0


From f17294457620839f0c2d77c7a26b492edb3d3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:39 +0000
Subject: [PATCH 46/50] fix: two queries of /encrypt_sql2 in one millisecond
 got the same id, the rows of one were decrypted as those of the other

---
 scheduler/backend/execution_context.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index 2a65655..c515e2b 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -4,9 +4,11 @@ from scheduler.backend.executors import DecryptQueryExecutor
 from scheduler.compile.parser import Parser
 from scheduler.handers.decrypt_handler import DecryptHandler
 
+import threading
 import time
 
 id_sql_map = {}
+id_lock = threading.Lock()
 
 
 def invoke(query_info, query_sql, encrypted_cols=None, columns_info=False):
@@ -52,9 +54,12 @@ def encrypt_sql2(db, sql):
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
     select_state = executor.rewriter.select.select_state
-    curr_id = lambda: int(round(time.time() * 1000))
-    curr_id = str(curr_id())
-    id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
+    with id_lock:
+        curr_id = int(round(time.time() * 1000))
+        while str(curr_id) in id_sql_map:  # taken by another query of this millisecond
+            curr_id += 1
+        curr_id = str(curr_id)
+        id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
     return enc_query, table, curr_id
 
 
-- 
2.43.0


From def1fd8e537977be2d52c1ba135b406b7ad90654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:39 +0000
Subject: [PATCH 47/50] fix: /decrypt_data failed for NULLs and numbers, and
 printed the rows

---
 scheduler/handers/decrypt_handler.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index 2f3d2c5..90f4eb3 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -41,12 +41,10 @@ class DecryptHandler(Handler):
         self.db_meta = db_meta
 
         enc_result = data.get("rows", [])
-        print(f"enc_data:{enc_result}")
         for row in enc_result:
             new_row = []
             # row1 = row.split(",")
             for col_name, state, col_val in zip(select_columns, select_state, row):
-                print("密文解密：" + col_val)
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
                         col_val = eval(col_val.__str__())
@@ -58,7 +56,6 @@ class DecryptHandler(Handler):
                 else:
                     new_row.append(self.__decrypt__(table, col_val, col_name, state))
             self.result.append(new_row)
-        # print(f"decrypted data:{self.result}")
         return dict(columns=select_columns, rows=self.result)
 
     def __decrypt__(self, table, col_val, col_name, state):
-- 
2.43.0


From 2ea4bc10cb18f7da06e34ec2f1926cb3c447cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:54 +0000
Subject: [PATCH 48/50] fix: a request with a wrong password was answered, and
 one database name could stand for another in the pool of connections

---
 scheduler/backend/executors/remote_executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 10266de..35a4af8 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -47,13 +47,13 @@ class RemoteExecutor(AbstractQueryExecutor):
     def connect_db(conn_info):
         if not conn_info:
             return conn_info
-        db_key = conn_info['host'] + str(conn_info['port']) + conn_info['db'] + conn_info['user']
+        db_key = (conn_info['host'], str(conn_info['port']), conn_info['db'], conn_info['user'], conn_info['password'])
         if db_key not in connection_pool:
             connection = PooledDB(
                 mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                 passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
             connection_pool[db_key] = connection
-            logging.info("mysql connected from {}".format(db_key))
+            logging.info("mysql connected from {}".format(db_key[:-1]))
         else:
             connection = connection_pool[db_key]
         return connection.connection()
-- 
2.43.0


From 93e2742ca5b3b2ffc8910b155283a5d32da5ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:06 +0000
Subject: [PATCH 49/50] fix: the first requests of a process failed when they
 read the metadata at the same time

---
 scheduler/schema/metadata.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 15e8ab4..cf3b84d 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -1,6 +1,7 @@
 import json
 import yaml
 import sqlite3
+import threading
 
 from sql_parsing import format
 
@@ -96,13 +97,17 @@ class Delta(object):
     __instance = None
     meta = None
     db_conn = None
+    # the requests share the connection and the description
+    lock = threading.RLock()
 
     def __new__(cls, *args, **kwargs):
         if Delta.__instance is None:
-            cls.db_conn = test_connection(db_conn)
-            cls.meta = cls.load_delta()
-            # only a description that could be read is kept
-            Delta.__instance = object.__new__(cls, *args, **kwargs)
+            with cls.lock:
+                if Delta.__instance is None:
+                    cls.db_conn = test_connection(db_conn)
+                    cls.meta = cls.load_delta()
+                    # only a description that could be read is kept
+                    Delta.__instance = object.__new__(cls, *args, **kwargs)
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-- 
2.43.0


From efe71ccebce7427aa8bdcb625e1bf9a704174961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:25 +0000
Subject: [PATCH 50/50] fix: a DROP TABLE removed the description of a table
 that another request created again meanwhile

---
 .../backend/executors/remote_executor.py      | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 35a4af8..aa13539 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -1,5 +1,6 @@
 import logging
 import time
+from contextlib import nullcontext
 import pandas as pd
 import numpy as np
 
@@ -99,20 +100,22 @@ class RemoteExecutor(AbstractQueryExecutor):
             logger.info(e)
             raise e
         start_time = time.time()
-        try:
-            cursor.execute(enc_query)
-        except Exception as e:
-            logger.info(e)
-            self.conn.close()
-            raise e
-        if query_type == QueryType.CREATE:
-            # the metadata describes tables that exist, a failed statement leaves it as it was
-            self.meta.update_delta(self.str_db, self.table['meta'])
-        if query_type == QueryType.DROP:
-            self.meta.delete_delta(self.str_db, self.table['table'])
-        elif query_type == QueryType.SELECT:
+        # a table and its description change together, whatever others do with a table of that name
+        with self.meta.lock if query_type in (QueryType.CREATE, QueryType.DROP) else nullcontext():
+            try:
+                cursor.execute(enc_query)
+            except Exception as e:
+                logger.info(e)
+                self.conn.close()
+                raise e
+            if query_type == QueryType.CREATE:
+                # the metadata describes tables that exist, a failed statement leaves it as it was
+                self.meta.update_delta(self.str_db, self.table['meta'])
+            if query_type == QueryType.DROP:
+                self.meta.delete_delta(self.str_db, self.table['table'])
+        if query_type == QueryType.SELECT:
             self.result = cursor.fetchall()
-        else:
+        elif query_type != QueryType.DROP:
             self.conn.commit()
         logger.info("Execute:{}".format(time.time() - start_time))
         self.conn.close()
-- 
2.43.0

