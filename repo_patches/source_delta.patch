From ef999ecee418565190d5e4fefa95a10bc055ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 01/13] fix: parse_number crashed on numeric characters that
 are not decimal digits

---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..01b8003 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -297,7 +297,7 @@ def parse_number(input_string, language=None):
     if not input_string.strip():
         return None
 
-    if input_string.strip().isnumeric():
+    if input_string.strip().isdecimal():
         return int(input_string)
 
     if language is None:
-- 
2.43.0


From c62d0ed02b148191e4a19e122e71f2b3a146f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 02/13] fix: parse_number took text without any number word, or
 starting with a connector, for a number

---
 number_parser/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 01b8003..8b8dde2 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -311,12 +311,18 @@ def parse_number(input_string, language=None):
 
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
-    for index, token in enumerate(normalized_tokens):
-        if _is_cardinal_token(token, lang_data) or not token.strip():
+    number_found = False
+    for token in normalized_tokens:
+        if not token.strip():
+            continue
+        if _is_cardinal_token(token, lang_data):
+            number_found = True
             continue
-        if _is_skip_token(token, lang_data) and index != 0:
+        if _is_skip_token(token, lang_data) and number_found:
             continue
         return None
+    if not number_found:
+        return None
     number_built = _build_number(normalized_tokens, lang_data)
     if len(number_built) == 1:
         return int(number_built[0])
-- 
2.43.0


From df966a13e2dc171feb9d9b5794e1e875c23874d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 03/13] fix: parse dropped or lowercased connector words that
 are not part of a number

---
 number_parser/parser.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 8b8dde2..ff03fa3 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -114,7 +114,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if token in lang_data.skip_tokens:
+        if _is_skip_token(_strip_accents(token.lower()), lang_data):
             used_skip_tokens.append(token)
             continue
 
@@ -378,7 +378,12 @@ def parse(input_string, language=None):
 
     def _build_and_add_number(pop_last_space=False):
         if tokens_taken:
-            result = _build_number(tokens_taken, lang_data)
+            # when finishing with skip tokens --> keep them
+            last_skip_tokens = []
+            while _is_skip_token(_strip_accents(tokens_taken[-1].lower()), lang_data):
+                last_skip_tokens.insert(0, tokens_taken.pop())
+
+            result = _build_number(tokens_taken, lang_data) + last_skip_tokens
             tokens_taken.clear()
 
             for number in result:
@@ -409,18 +414,11 @@ def parse(input_string, language=None):
         if ordinal_number:
             tokens_taken.append(ordinal_number)
             _build_and_add_number(pop_last_space=True)
-        elif _is_cardinal_token(compare_token, lang_data) or (
-            _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0
-        ):
+        elif _is_cardinal_token(compare_token, lang_data):
             tokens_taken.append(compare_token)
+        elif _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0:
+            tokens_taken.append(token)
         else:
-            if tokens_taken and _is_skip_token(tokens_taken[-1], lang_data):
-                # when finishing with a skip_token --> keep it
-                skip_token = tokens_taken[-1]
-                tokens_taken.pop()
-                _build_and_add_number()
-                current_sentence.extend([skip_token, " "])
-
             _build_and_add_number()
             current_sentence.append(token)
 
-- 
2.43.0


From e7493ee5680901add53509c117be5232f8ef39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 04/13] fix: words with combining marks were split, and Hindi
 words were not split from punctuation

---
 number_parser/parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ff03fa3..a5ceed8 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -4,7 +4,8 @@ from importlib import import_module
 
 SENTENCE_SEPARATORS = [".", ","]
 SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
-RE_BUG_LANGUAGES = ["hi"]
+# Combining marks (generic and Devanagari) and joiners are part of a word, but not matched by \w.
+WORD_MARKS = "\u0300-\u036f\u0900-\u0903\u093a-\u094f\u0951-\u0957\u0962\u0963\u200c\u200d"
 
 
 class LanguageData:
@@ -175,11 +176,9 @@ def _build_number(token_list, lang_data):
 
 
 def _tokenize(input_string, language):
-    """Breaks string on any non-word character."""
+    """Breaks string on any character that cannot be part of a word."""
     input_string = input_string.replace("\xad", "")
-    if language in RE_BUG_LANGUAGES:
-        return re.split(r"(\s+)", input_string)
-    return re.split(r"(\W)", input_string)
+    return re.split(rf"([^\w{WORD_MARKS}])", input_string)
 
 
 def _strip_accents(word):
@@ -396,7 +395,7 @@ def parse(input_string, language=None):
         compare_token = _strip_accents(token.lower())
         ordinal_number = _is_ordinal_token(compare_token, lang_data)
 
-        if not compare_token.strip():
+        if not token.strip():
             if not tokens_taken:
                 current_sentence.append(token)
                 pop_last_space = True
-- 
2.43.0


From 8f9ed25a64b9f0862630cd1224c8151cccd60a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 05/13] fix: parse_fraction recognised the fraction words in
 lower case only

---
 number_parser/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index a5ceed8..a15c932 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -339,13 +339,13 @@ def parse_fraction(input_string, language=None):
     FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]
 
     for separator in FRACTION_SEPARATORS:
-        position_of_separator = input_string.find(separator)
+        separator_match = re.search(separator, input_string, re.IGNORECASE)
 
-        if position_of_separator == -1:
+        if separator_match is None:
             continue
 
-        string_before_separator = input_string[:position_of_separator]
-        string_after_separator = input_string[position_of_separator + len(separator) :]
+        string_before_separator = input_string[: separator_match.start()]
+        string_after_separator = input_string[separator_match.end() :]
 
         number_before_separator = parse_number(string_before_separator, language)
         number_after_separator = parse_number(string_after_separator, language)
-- 
2.43.0


From 2b468f5c56338b51d8a7a2f5f5ccc24c8ecd99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 06/13] fix: Spanish decillones was 10**66 instead of 10**60

---
 number_parser/data/es.py                                  | 2 +-
 number_parser_data/supplementary_translation_data/es.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/data/es.py b/number_parser/data/es.py
index ff2d26e..04d3336 100644
--- a/number_parser/data/es.py
+++ b/number_parser/data/es.py
@@ -87,8 +87,8 @@ info = {
         "octillón": 1000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillones": 1000000000000000000000000000000000000000000000000000000000000000000000000,
diff --git a/number_parser_data/supplementary_translation_data/es.json b/number_parser_data/supplementary_translation_data/es.json
index 3cb6a7b..dfb847d 100644
--- a/number_parser_data/supplementary_translation_data/es.json
+++ b/number_parser_data/supplementary_translation_data/es.json
@@ -33,7 +33,7 @@
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillón": 1000000000000000000000000000000000000000000000000000000000000000000000000,
-- 
2.43.0


From 3a33a00913cf6d67d08eefe9cf21bc9ca04e88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 07/13] fix: regenerating the Ukrainian data from its sources
 lost five words

---
 number_parser/data/uk.py                               | 10 +++++-----
 .../supplementary_translation_data/uk.json             |  7 ++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/number_parser/data/uk.py b/number_parser/data/uk.py
index 27aa423..a840c29 100644
--- a/number_parser/data/uk.py
+++ b/number_parser/data/uk.py
@@ -80,18 +80,18 @@ info = {
         "двісті": 200,
         "триста": 300,
         "чотириста": 400,
-        "п'ятсот": 500,
-        "пʼятсот": 500,
         "п'ятисот": 500,
+        "п'ятсот": 500,
         "пʼятисот": 500,
-        "пятсот": 500,
+        "пʼятсот": 500,
         "пятисот": 500,
+        "пятсот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "девятсот": 900,
         "дев'ятсот": 900,
-        "девʼятсот": 900
+        "девʼятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяч": 1000,
diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..0843fb1 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -81,10 +81,15 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "дев'ятсот": 900
+        "дев'ятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяча": 1000,
-- 
2.43.0


From 043c9256f2292c36081de80f87082d9799ebdf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 08/13] fix: parse, parse_ordinal and language detection missed
 Ukrainian numbers written with an apostrophe

---
 number_parser/parser.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index a15c932..7b9ee3c 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -4,6 +4,7 @@ from importlib import import_module
 
 SENTENCE_SEPARATORS = [".", ","]
 SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
+APOSTROPHE_LANGUAGES = ["uk"]  # an apostrophe can be part of a word
 # Combining marks (generic and Devanagari) and joiners are part of a word, but not matched by \w.
 WORD_MARKS = "\u0300-\u036f\u0900-\u0903\u093a-\u094f\u0951-\u0957\u0962\u0963\u200c\u200d"
 
@@ -115,7 +116,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if _is_skip_token(_strip_accents(token.lower()), lang_data):
+        if _is_skip_token(_normalize_token(token), lang_data):
             used_skip_tokens.append(token)
             continue
 
@@ -178,7 +179,10 @@ def _build_number(token_list, lang_data):
 def _tokenize(input_string, language):
     """Breaks string on any character that cannot be part of a word."""
     input_string = input_string.replace("\xad", "")
-    return re.split(rf"([^\w{WORD_MARKS}])", input_string)
+    separator = rf"[^\w{WORD_MARKS}]"
+    if language in APOSTROPHE_LANGUAGES:
+        separator = rf"(?!(?<=[\w{WORD_MARKS}])['’]\w){separator}"
+    return re.split(f"({separator})", input_string)
 
 
 def _strip_accents(word):
@@ -190,14 +194,20 @@ def _strip_accents(word):
     )
 
 
+def _normalize_token(token):
+    """Converts the token to lowercase then removes accents and apostrophes."""
+    return _strip_accents(token.lower()).replace("'", "").replace("’", "")
+
+
 def _normalize_tokens(token_list):
-    """Converts all tokens to lowercase then removes accents."""
-    return [_strip_accents(token.lower()) for token in token_list]
+    """Normalizes all tokens."""
+    return [_normalize_token(token) for token in token_list]
 
 
 def _normalize_dict(lang_data):
-    """Removes the accent from each key of input dictionary"""
-    return {_strip_accents(word): number for word, number in lang_data.items()}
+    """Normalizes each key of input dictionary, which may also be written without the modifier apostrophe"""
+    normalized = {_normalize_token(word): num for word, num in lang_data.items()}
+    return {word.replace("ʼ", ""): num for word, num in normalized.items()} | normalized
 
 
 def _is_cardinal_token(token, lang_data):
@@ -379,7 +389,7 @@ def parse(input_string, language=None):
         if tokens_taken:
             # when finishing with skip tokens --> keep them
             last_skip_tokens = []
-            while _is_skip_token(_strip_accents(tokens_taken[-1].lower()), lang_data):
+            while _is_skip_token(_normalize_token(tokens_taken[-1]), lang_data):
                 last_skip_tokens.insert(0, tokens_taken.pop())
 
             result = _build_number(tokens_taken, lang_data) + last_skip_tokens
@@ -392,7 +402,7 @@ def parse(input_string, language=None):
                 current_sentence.pop()
 
     for token in tokens:
-        compare_token = _strip_accents(token.lower())
+        compare_token = _normalize_token(token)
         ordinal_number = _is_ordinal_token(compare_token, lang_data)
 
         if not token.strip():
-- 
2.43.0


From b5210a77049bb37a0938db8b7eec740bd71303e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 09/13] fix: parse_number crashed on digits surrounded by
 separator control characters

---
 number_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 7b9ee3c..a8a4707 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -307,7 +307,7 @@ def parse_number(input_string, language=None):
         return None
 
     if input_string.strip().isdecimal():
-        return int(input_string)
+        return int(input_string.strip())
 
     if language is None:
         language = _valid_tokens_by_language(input_string)
-- 
2.43.0


From 943a7a3ddd5c88da78a7bb08e775837437d4d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 10/13] fix: words that contain an ordinal were taken for a
 number

---
 number_parser/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index a8a4707..9fb9728 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -251,8 +251,7 @@ def _apply_cardinal_conversion(
         "twelfth": "twelve",
     }
 
-    for word, number in CARDINAL_DIRECT_NUMBERS.items():
-        token = token.replace(word, number)
+    token = CARDINAL_DIRECT_NUMBERS.get(token, token)
 
     token_cardinal_form_1 = re.sub(r"ieth$", "y", token)
     if _is_cardinal_token(token_cardinal_form_1, lang_data) is not None:
-- 
2.43.0


From 0715480a81b262473d8a7dce4f01e657e53396ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 11/13] fix: the data generator capitalised 'true' and 'false'
 inside number words

---
 number_parser_scripts/write_complete_language_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c305dbf..b133546 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -181,8 +181,8 @@ def write_complete_data():
             ordered_language_data, indent=4, ensure_ascii=False
         )
         # Overwriting boolean value with capitalized form
-        translation_data = re.sub(r"\bfalse\b", "False", translation_data)
-        translation_data = re.sub(r"\btrue\b", "True", translation_data)
+        translation_data = re.sub(r'": false\b', '": False', translation_data)
+        translation_data = re.sub(r'": true\b', '": True', translation_data)
         out_text = "info = " + translation_data + "\n"
         with open(full_target_path, "w+") as target_file:
             target_file.write(out_text)
-- 
2.43.0


From 7a7a90fe93e8db8d3f2e9115723a5466756dae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 12/13] fix: the data generator depended on the locale's
 encoding

---
 number_parser_scripts/write_complete_language_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index b133546..2d7df60 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -112,7 +112,7 @@ def _extract_information(key, word, language_data):
     try:
         number = int(key)
     except ValueError:
-        print(f"The given key {key} is not an integer")
+        print(f"The given key {key!a} is not an integer")
         return
 
     word = word.replace(";", "")
@@ -144,7 +144,7 @@ def write_complete_data():
 
         language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
         ordered_language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
-        with open(full_source_path, "r") as source:
+        with open(full_source_path, "r", encoding="utf-8") as source:
             data = json.load(source)
             try:
                 requisite_data = data["rbnf"]["rbnf"]["SpelloutRules"]
@@ -161,7 +161,9 @@ def write_complete_data():
                         val = val.replace("\xad", "")
                         _extract_information(key, val, language_data)
 
-        with open(full_supplementary_path, "r") as supplementary_data:
+        with open(
+            full_supplementary_path, "r", encoding="utf-8"
+        ) as supplementary_data:
             data = json.load(supplementary_data)
             for keys in REQUIRED_NUMBERS_DATA:
                 language_data[keys].update(data[keys])
@@ -184,7 +186,7 @@ def write_complete_data():
         translation_data = re.sub(r'": false\b', '": False', translation_data)
         translation_data = re.sub(r'": true\b', '": True', translation_data)
         out_text = "info = " + translation_data + "\n"
-        with open(full_target_path, "w+") as target_file:
+        with open(full_target_path, "w+", encoding="utf-8") as target_file:
             target_file.write(out_text)
 
 
-- 
2.43.0


From 9d7fe29f75cddc2d782db51de400e5f30f237ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 13/13] fix: the English ordinal endings were removed from
 words of every language (parse('milth', 'es') was '1000')

---
 number_parser/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 9fb9728..6eae894 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -41,6 +41,7 @@ class LanguageData:
         }
         self.unit_and_direct_numbers = {**self.unit_numbers, **self.direct_numbers}
         self.maximum_group_value = 10000 if language_info["USE_LONG_SCALE"] else 100
+        self.language = language
 
 
 def _check_validity(
@@ -241,6 +242,9 @@ def _apply_cardinal_conversion(
     token, lang_data
 ):  # Currently only for English language.
     """Converts ordinal tokens to cardinal while leaving other tokens unchanged."""
+    if lang_data.language != "en":
+        return token
+
     CARDINAL_DIRECT_NUMBERS = {
         "first": "one",
         "second": "two",
-- 
2.43.0

