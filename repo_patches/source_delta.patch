From d60b7a95e6a5551efd24329f307777215ba555bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 01/11] fix: parse_number must not raise on numeric characters
 that are not decimal digits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"½", "²" and "五" are isnumeric() but int() rejects them, and int() does not
strip every whitespace character that str.strip() does ("\x1c3").
---
 number_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..a6f456a 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -297,8 +297,8 @@ def parse_number(input_string, language=None):
     if not input_string.strip():
         return None
 
-    if input_string.strip().isnumeric():
-        return int(input_string)
+    if input_string.strip().isdecimal():
+        return int(input_string.strip())
 
     if language is None:
         language = _valid_tokens_by_language(input_string)
-- 
2.43.0


From ff3b4a31f99c4e90db230395352c6d4497a45203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 02/11] fix: parse_number returned 0 for text without any
 number word

"-", "\x27", " and" and a lone soft hyphen were read as 0, and a leading
connecting word was accepted or not depending on leading whitespace.
---
 number_parser/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index a6f456a..b0780bd 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -311,12 +311,18 @@ def parse_number(input_string, language=None):
 
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
-    for index, token in enumerate(normalized_tokens):
-        if _is_cardinal_token(token, lang_data) or not token.strip():
+    number_found = False
+    for token in normalized_tokens:
+        if _is_cardinal_token(token, lang_data):
+            number_found = True
             continue
-        if _is_skip_token(token, lang_data) and index != 0:
+        if not token.strip():
+            continue
+        if _is_skip_token(token, lang_data) and number_found:
             continue
         return None
+    if not number_found:
+        return None
     number_built = _build_number(normalized_tokens, lang_data)
     if len(number_built) == 1:
         return int(number_built[0])
-- 
2.43.0


From f0c96a531757703ab5f77c634fdd29cdd133e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 03/11] fix: parse must keep connecting words that end up
 outside of a number

"one and, two" lost its "and", "one and and cats" lost one of them, and
"One AND two" changed the case of a word that is not part of a number.
---
 number_parser/parser.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index b0780bd..805a578 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -114,7 +114,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if token in lang_data.skip_tokens:
+        if _is_skip_token(_strip_accents(token.lower()), lang_data):
             used_skip_tokens.append(token)
             continue
 
@@ -378,7 +378,12 @@ def parse(input_string, language=None):
 
     def _build_and_add_number(pop_last_space=False):
         if tokens_taken:
-            result = _build_number(tokens_taken, lang_data)
+            # when finishing with skip_tokens --> keep them
+            trailing_tokens = []
+            while _is_skip_token(_strip_accents(tokens_taken[-1].lower()), lang_data):
+                trailing_tokens.insert(0, tokens_taken.pop())
+
+            result = _build_number(tokens_taken, lang_data) + trailing_tokens
             tokens_taken.clear()
 
             for number in result:
@@ -409,18 +414,11 @@ def parse(input_string, language=None):
         if ordinal_number:
             tokens_taken.append(ordinal_number)
             _build_and_add_number(pop_last_space=True)
-        elif _is_cardinal_token(compare_token, lang_data) or (
-            _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0
-        ):
+        elif _is_cardinal_token(compare_token, lang_data):
             tokens_taken.append(compare_token)
+        elif _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0:
+            tokens_taken.append(token)
         else:
-            if tokens_taken and _is_skip_token(tokens_taken[-1], lang_data):
-                # when finishing with a skip_token --> keep it
-                skip_token = tokens_taken[-1]
-                tokens_taken.pop()
-                _build_and_add_number()
-                current_sentence.extend([skip_token, " "])
-
             _build_and_add_number()
             current_sentence.append(token)
 
-- 
2.43.0


From 8d990224be378966bee11115c35bb5a1e366057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 04/11] fix: words spelled with combining accents (NFD) must
 not be split

"veintitre\u0301s" was tokenized as three words, so the canonically equivalent
spelling of an accented number word was not recognized.
---
 number_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 805a578..b57f397 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -175,11 +175,11 @@ def _build_number(token_list, lang_data):
 
 
 def _tokenize(input_string, language):
-    """Breaks string on any non-word character."""
+    """Breaks string on any non-word character (combining accents belong to their word)."""
     input_string = input_string.replace("\xad", "")
     if language in RE_BUG_LANGUAGES:
         return re.split(r"(\s+)", input_string)
-    return re.split(r"(\W)", input_string)
+    return re.split(r"([^\w\u0300-\u036f])", input_string)
 
 
 def _strip_accents(word):
-- 
2.43.0


From f0f3290355d9d2da5823675db92aec81e1936efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 05/11] fix: "zero million" is zero, not a million

A scale word used the default multiplier 1 whenever the group value was 0,
even when a zero had been said.
---
 number_parser/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index b57f397..1728b7f 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -145,6 +145,7 @@ def _build_number(token_list, lang_data):
             current_grp_value = 0
             for skip_token in used_skip_tokens:
                 value_list.append(skip_token)
+            previous_token = None
             previous_power_of_10 = None
 
         if token in lang_data.unit_and_direct_numbers:
@@ -158,8 +159,9 @@ def _build_number(token_list, lang_data):
 
         elif token in lang_data.big_powers_of_ten:
             power_of_ten = lang_data.big_powers_of_ten[token]
-            if current_grp_value == 0:
-                current_grp_value = 1
+            if previous_token is None or previous_token in lang_data.big_powers_of_ten:
+                # nothing to multiply --> "thousand" on its own is one thousand
+                current_grp_value = current_grp_value or 1
 
             current_grp_value *= power_of_ten
             if power_of_ten > lang_data.maximum_group_value:
-- 
2.43.0


From 0f4bb109ff449a443102a67bb25a9b5b24bec43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 06/11] =?UTF-8?q?fix:=20Spanish=20"decillones"=20is=2010**?=
 =?UTF-8?q?60,=20the=20plural=20of=20"decill=C3=B3n"?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 number_parser/data/es.py                                  | 2 +-
 number_parser_data/supplementary_translation_data/es.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/data/es.py b/number_parser/data/es.py
index ff2d26e..04d3336 100644
--- a/number_parser/data/es.py
+++ b/number_parser/data/es.py
@@ -87,8 +87,8 @@ info = {
         "octillón": 1000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillones": 1000000000000000000000000000000000000000000000000000000000000000000000000,
diff --git a/number_parser_data/supplementary_translation_data/es.json b/number_parser_data/supplementary_translation_data/es.json
index 3cb6a7b..dfb847d 100644
--- a/number_parser_data/supplementary_translation_data/es.json
+++ b/number_parser_data/supplementary_translation_data/es.json
@@ -33,7 +33,7 @@
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillón": 1000000000000000000000000000000000000000000000000000000000000000000000000,
-- 
2.43.0


From dc92135a58e8f79a95bbf3aab607bd4369ccae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 07/11] fix: regenerating the Ukrainian data must not drop
 words
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"п'ятисот", "пятсот", "девятсот" and others were only in the generated
number_parser/data/uk.py; write_complete_language_data.py lost them.
---
 number_parser/data/uk.py                               | 10 +++++-----
 .../supplementary_translation_data/uk.json             |  7 ++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/number_parser/data/uk.py b/number_parser/data/uk.py
index 27aa423..a840c29 100644
--- a/number_parser/data/uk.py
+++ b/number_parser/data/uk.py
@@ -80,18 +80,18 @@ info = {
         "двісті": 200,
         "триста": 300,
         "чотириста": 400,
-        "п'ятсот": 500,
-        "пʼятсот": 500,
         "п'ятисот": 500,
+        "п'ятсот": 500,
         "пʼятисот": 500,
-        "пятсот": 500,
+        "пʼятсот": 500,
         "пятисот": 500,
+        "пятсот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "девятсот": 900,
         "дев'ятсот": 900,
-        "девʼятсот": 900
+        "девʼятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяч": 1000,
diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..0843fb1 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -81,10 +81,15 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
-        "дев'ятсот": 900
+        "дев'ятсот": 900,
+        "девятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
         "тисяча": 1000,
-- 
2.43.0


From 5547e2670ed74f39dfe6430db9965ff9807cafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 08/11] fix: fraction separators are case-insensitive like the
 number words

"One Over Two" was not recognized as a fraction.
---
 number_parser/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 1728b7f..9cc530f 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -342,13 +342,13 @@ def parse_fraction(input_string, language=None):
     FRACTION_SEPARATORS = ["divided by", "over", "by", "/"]
 
     for separator in FRACTION_SEPARATORS:
-        position_of_separator = input_string.find(separator)
+        match = re.search(re.escape(separator), input_string, re.IGNORECASE)
 
-        if position_of_separator == -1:
+        if match is None:
             continue
 
-        string_before_separator = input_string[:position_of_separator]
-        string_after_separator = input_string[position_of_separator + len(separator) :]
+        string_before_separator = input_string[: match.start()]
+        string_after_separator = input_string[match.end() :]
 
         number_before_separator = parse_number(string_before_separator, language)
         number_after_separator = parse_number(string_after_separator, language)
-- 
2.43.0


From fe7722fe9d0d638706a23a1b302ca93f60fe6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 09/11] fix: count the zeroes of large rule numbers exactly

Float division made numbers such as 10**24 lose their zeroes, so their words
were left out of the generated tables.
---
 number_parser_scripts/write_complete_language_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c305dbf..b59a473 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -56,7 +56,7 @@ def _count_zero(number):
     while number > 9:
         if number % 10 == 0:
             zero_count += 1
-            number /= 10
+            number //= 10
         else:
             break
     return zero_count
-- 
2.43.0


From 1259fe9fe23cd93bc40f6c23b5af4d2adde1897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 10/11] fix: skip multiplier rules that define no word

A rule that ends with its multiplier raised IndexError, and one with nothing
between multiplier and remainder added an empty word to the tables.
---
 number_parser_scripts/write_complete_language_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index b59a473..e63c2d7 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -86,7 +86,7 @@ def _add_compound_words(number, word, language_data):
 def _add_multiplier_words(number, word, language_data):
     """Adding words that are large powers of 10 which are used to form bigger numbers."""
     required_part = word.split("<")[-1]
-    if required_part[0] != " ":
+    if not required_part.startswith(" "):
         return
 
     power_of_10 = _count_zero(number)
@@ -102,6 +102,9 @@ def _add_multiplier_words(number, word, language_data):
     else:
         valid_word = required_part.split(">")[0].strip()
 
+    if valid_word == "":
+        return
+
     power_of_10_num = pow(10, power_of_10)
     if power_of_10 >= 2:
         language_data["BIG_POWERS_OF_TEN"][valid_word] = power_of_10_num
-- 
2.43.0


From a4c19d6ca3a564f9a5dccf3a5a808da3cdb5e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 11/11] fix: keep number words spelled true or false

The capitalisation meant for the long-scale flag was applied to words too.
---
 number_parser_scripts/write_complete_language_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index e63c2d7..7feda9d 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -184,8 +184,8 @@ def write_complete_data():
             ordered_language_data, indent=4, ensure_ascii=False
         )
         # Overwriting boolean value with capitalized form
-        translation_data = re.sub(r"\bfalse\b", "False", translation_data)
-        translation_data = re.sub(r"\btrue\b", "True", translation_data)
+        translation_data = re.sub(r'(?<=": )false\b', "False", translation_data)
+        translation_data = re.sub(r'(?<=": )true\b', "True", translation_data)
         out_text = "info = " + translation_data + "\n"
         with open(full_target_path, "w+") as target_file:
             target_file.write(out_text)
-- 
2.43.0

