From 9c29703f3c1df4ee3411202fe8f1454af9c80f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:45 +0000
Subject: [PATCH 01/25] fix: keep the notebook widget hidden when
 suppress_display is combined with delay

tqdm_notebook.__init__ resets self.displayed, so setting it before
super().__init__ had no effect: with delay > 0 the first refresh after
construction displayed the widget although the reporter suppresses it.
---
 py/koladata/ext/tqdm/tqdm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/py/koladata/ext/tqdm/tqdm.py b/py/koladata/ext/tqdm/tqdm.py
index defa9f7..8a677d6 100644
--- a/py/koladata/ext/tqdm/tqdm.py
+++ b/py/koladata/ext/tqdm/tqdm.py
@@ -61,11 +61,14 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
     self._reporter = reporter
     is_notebook = isinstance(self, _tqdm_notebook.tqdm_notebook)
 
+    hide_widget = False
     if self._reporter is not None:
       kwargs = self._get_configured_kwargs(kwargs, is_notebook)
-      if is_notebook and self._reporter.tqdm_config.suppress_display:
-        # Ensure the widget never displays if check_delay is triggered later.
-        self.displayed = True
+      hide_widget = (
+          is_notebook
+          and self._reporter.tqdm_config.suppress_display
+          and not kwargs.get('display', True)
+      )
       self._bar_id = uuid.uuid4().hex
 
     # tqdm tracks whether close() has been called via self.disable, so we
@@ -76,6 +79,10 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
     # our display() and _set_progress() hooks to broadcast the initial state.
     # This happens immediately unless delay > 0 is passed.
     super().__init__(*args, **kwargs)
+    if hide_widget:
+      # Ensure the widget never displays if check_delay is triggered later. This
+      # must come after super().__init__, which resets the flag.
+      self.displayed = True
 
   def _get_configured_kwargs(
       self, kwargs: dict[str, Any], is_notebook: bool
-- 
2.43.0


From 0ddd219a52562243d916b219d90d473e87332294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:01 +0000
Subject: [PATCH 02/25] fix: keep custom bag metadata when extracting bags

---
 py/koladata/ext/storage/data_bag_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 94c6d2e..37070dd 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -350,6 +350,7 @@ class DataBagManager:
         bag_names, with_all_dependents=with_all_dependents
     )
     bag_dependencies = self._get_dependency_relation()
+    custom_metadata = self.get_custom_metadata(bag_name_to_bag.keys())
 
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
@@ -369,6 +370,7 @@ class DataBagManager:
             bag_name,
             bag=bag_name_to_bag[bag_name],
             dependencies=tuple(bag_dependencies[bag_name]),
+            custom_metadata=custom_metadata[bag_name],
         )
         for bag_name in self.canonical_topological_sorting(
             bag_name_to_bag.keys()
-- 
2.43.0


From d022f79af0662ca5d3a00c2762886382dc0f2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:18 +0000
Subject: [PATCH 03/25] fix: preserve the identity of kv.present when copying
 and pickling views

---
 py/koladata/ext/view/mask_constants.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/koladata/ext/view/mask_constants.py b/py/koladata/ext/view/mask_constants.py
index 4bda6e5..367f740 100644
--- a/py/koladata/ext/view/mask_constants.py
+++ b/py/koladata/ext/view/mask_constants.py
@@ -24,6 +24,10 @@ class _Present:
   def __repr__(self):
     return 'present'
 
+  def __reduce__(self):
+    # Copying and pickling must preserve the identity of the singleton.
+    return 'present'
+
 
 present = _Present()
 missing = None
-- 
2.43.0


From de357731c36d7b328ac249312cbd1e13113c337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 04/25] fix: end multi-line comments that close with several
 asterisks in JSON salvage

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 55fc89b..e08c7ef 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -630,7 +630,7 @@ bool JsonSalvageStreamProcessor::ProcessCommentRules(
     } else {
       if (c == '/') {
         SetStateWithBuffer(State::kBase, "");
-      } else {
+      } else if (c != '*') {
         ClearBuffer();
       }
     }
-- 
2.43.0


From 685952484d51b4f499792953ad671f9f004fdb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 05/25] fix: escape the character after an invalid escape in
 JSON salvage

---
 koladata/internal/op_utils/json_stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index e08c7ef..0b6b863 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -464,8 +464,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EndString();
       } else {
         // Invalid escape "\?" -> "\\?".
-        EmitRawOutput("\\\\");
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint('\\');
+        EmitJsonStringCodePoint(*c);
         ClearBuffer();
       }
     } else if (BufferEquals("\\\r")) {
-- 
2.43.0


From 0fd506ce038012bfb6942af415a08af801df1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 06/25] fix: flush a pending lead surrogate before simple
 escapes in JSON salvage

---
 koladata/internal/op_utils/json_stream.cc | 14 +++++++++-----
 koladata/internal/op_utils/json_stream.h  |  1 +
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 0b6b863..be54dee 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -435,6 +435,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       // First character of escape sequence.
       if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' ||
           c == 'n' || c == 'r' || c == 't') {
+        EmitPendingSurrogate();
         EmitRawOutput('\\');
         EmitRawOutput(c);
         ClearBuffer();
@@ -445,7 +446,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EmitJsonStringCodePoint('\v');
         ClearBuffer();
       } else if (c == '`' || c == '\'') {
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint(*c);
         ClearBuffer();
       } else if (c == 'u' || c == 'U') {
         AppendToBuffer(c);
@@ -927,9 +928,8 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
     return;
   }
 
-  if (json_string_utf16_first_surrogate_.has_value() && !U16_IS_TRAIL(*c)) {
-    json_string_utf16_first_surrogate_.reset();
-    EmitJsonStringCodePoint(kReplacementCharacter);
+  if (!U16_IS_TRAIL(*c)) {
+    EmitPendingSurrogate();
   }
 
   if (c == '\b') {
@@ -988,11 +988,15 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
   }
 }
 
-void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+void JsonSalvageStreamProcessor::EmitPendingSurrogate() {
   if (json_string_utf16_first_surrogate_.has_value()) {
     json_string_utf16_first_surrogate_.reset();
     EmitJsonStringCodePoint(kReplacementCharacter);
   }
+}
+
+void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+  EmitPendingSurrogate();
   EmitRawOutput('"');
 }
 
diff --git a/koladata/internal/op_utils/json_stream.h b/koladata/internal/op_utils/json_stream.h
index 6369ce3..5ae3488 100644
--- a/koladata/internal/op_utils/json_stream.h
+++ b/koladata/internal/op_utils/json_stream.h
@@ -169,6 +169,7 @@ class JsonSalvageStreamProcessor {
 
   void EmitJsonStringStart();
   void EmitJsonStringCodePoint(std::optional<char32_t> c);
+  void EmitPendingSurrogate();
   void EmitJsonStringEnd();
 
   void EmitRawOutput(std::string_view s);
-- 
2.43.0


From 2e9515653e6b1dac46e06da14dade43dc81037e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 07/25] fix: complete the value of an empty backtick string at
 the end of the input in JSON salvage

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index be54dee..d7004ee 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,6 +311,7 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
+    EndValue();
   } else if (BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-- 
2.43.0


From 30756ce3e00d5fae81dc1ea4a5175dbd2fe813f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 08/25] fix: do not emit signed numbers as object keys in JSON
 salvage

---
 koladata/internal/op_utils/json_stream.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index d7004ee..127af05 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -312,22 +312,22 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
     EndValue();
-  } else if (BufferEquals("-") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("-") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("-") && (c >= '1' && c <= '9')) {
     EmitRawOutput('-');
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("-") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '.') {
     EmitRawOutput("-0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
-  } else if (BufferEquals("+") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '0') {
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("+") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("+") && (c >= '1' && c <= '9')) {
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("+") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '.') {
     EmitRawOutput("0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
   } else if (!IsValidUnquotedStringNextCodePoint(c)) {
-- 
2.43.0


From cafab5759a4e04b7ae412b6a9af5feb92b40779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 09/25] fix: handle escapes right after quotes in triple-quoted
 strings in JSON salvage

---
 koladata/internal/op_utils/json_stream.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 127af05..d28c377 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -486,8 +486,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('"');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -499,8 +499,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferEquals("'")) {
       // Maybe end of triple single quoted string.
@@ -509,8 +509,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('\'');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -522,8 +522,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else {
         EmitJsonStringCodePoint('\'');
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferStartsWith("\\u")) {
       if (BufferEquals("\\u") && c == '{') {
-- 
2.43.0


From 7223927355b868a9badbcd4d6a88bd1d0934615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 10/25] fix: start afresh after a top-level string or scalar in
 JsonGetArrayNthValue

---
 koladata/internal/op_utils/json_stream.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index d28c377..fd6b0e3 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1544,6 +1544,9 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
         is_in_escape_ = false;
       } else if (c == '"') {
         is_in_string_ = false;
+        if (container_depth_ == 0) {
+          end_top_level_value();
+        }
       } else if (c == '\\') {
         is_in_escape_ = true;
       }
@@ -1607,6 +1610,8 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
         if (container_depth_ == 0) {
           emit_top_level_null_if_not_already_done();
         }
+      } else if (container_depth_ == 0) {
+        end_top_level_value();
       }
     }
   }
-- 
2.43.0


From a4ad04eab1213493e3b36504540461336fd8011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 11/25] fix: emit null for a negative n in JsonGetArrayNthValue

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index fd6b0e3..d52f539 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1583,7 +1583,7 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
             } else {
               output.append("null\n");
             }
-          } else if (top_level_array_value_index_ < options_.n) {
+          } else {
             emit_top_level_null_if_not_already_done();
           }
           end_top_level_value();
-- 
2.43.0


From bc216844183c7bc9144bb45365c8f34c51746876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 12/25] fix: leave the object key state when a container ends
 in JsonExtractValues

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index d52f539..5573feb 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1373,6 +1373,7 @@ JsonStreamProcessResult JsonExtractValuesStreamProcessor::Process(
 
         if (!is_in_match_) {
           container_path_stack_.pop_back();
+          is_object_key_ = false;
         }
       } else if (c == ',') {
         if (is_in_match_) {
-- 
2.43.0


From c6139870effed52eb6463f9ba64160f14dff8553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 13/25] fix: keep the last character of unquoted keys when
 JsonStreamParser removes separators

---
 koladata/operators/json_stream_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index b450931..312d1aa 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -249,6 +249,11 @@ absl::Status JsonStreamParser::ProcessUnquotedName(char c) {
     path_.push_back(c);
     return absl::OkStatus();
   }
+  if (c != ':' && separator_policy_ == SeparatorPolicy::REMOVE) {
+    data_.push_back('"');  // The separator itself isn't in `data_`.
+    state_ = NAME_END;
+    return absl::OkStatus();
+  }
   data_.back() = '"';
   data_.push_back(c);
   state_ = c == ':' ? EXPECT_VALUE : NAME_END;
-- 
2.43.0


From a2ec80e0dd431c947c4c31f0ca8739c7d2e38d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 14/25] fix: produce valid JSON for single-quoted strings with
 quotes in JsonStreamParser

---
 koladata/operators/json_stream_parser.cc | 18 ++++++++++++++++++
 koladata/operators/json_stream_parser.h  |  1 +
 2 files changed, 19 insertions(+)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index 312d1aa..4a98b62 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -103,6 +103,15 @@ char JsonStreamParser::PreprocessSeparator(char c) {
   return c;
 }
 
+// Replaces the escape sequence \', which doesn't exist in JSON. The backslash
+// is in `data_` already (and could have been consumed).
+void JsonStreamParser::EscapeSingleQuote(char c) {
+  if (c == '\'' && last_opening_quote_ == '\'') {
+    data_.back() = 'u';
+    data_.append("0027");
+  }
+}
+
 // It is called when we start parsing a new value in a list or a new dict key,
 // which may need to be separated from the previous value with a comma.
 // If comma is needed, but is missing in `data_` (always the case with
@@ -234,12 +243,17 @@ absl::Status JsonStreamParser::ProcessName(char c) {
     state_ = NAME_ESCAPE;
   } else {
     path_.push_back(c);
+    if (c == '"') {  // Inside single quotes.
+      data_.back() = '\\';
+      data_.push_back('"');
+    }
   }
   return absl::OkStatus();
 }
 
 absl::Status JsonStreamParser::ProcessNameEscape(char c) {
   path_.push_back(c);
+  EscapeSingleQuote(c);
   state_ = NAME;
   return absl::OkStatus();
 }
@@ -327,11 +341,15 @@ absl::Status JsonStreamParser::ProcessValueString(char c) {
     state_ = VALUE_END;
   } else if (c == '\\') {
     state_ = VALUE_STRING_ESCAPE;
+  } else if (c == '"') {  // Inside single quotes.
+    data_.back() = '\\';
+    data_.push_back('"');
   }
   return absl::OkStatus();
 }
 
 absl::Status JsonStreamParser::ProcessValueStringEscape(char c) {
+  EscapeSingleQuote(c);
   state_ = VALUE_STRING;
   return absl::OkStatus();
 }
diff --git a/koladata/operators/json_stream_parser.h b/koladata/operators/json_stream_parser.h
index 49c5969..89c2d62 100644
--- a/koladata/operators/json_stream_parser.h
+++ b/koladata/operators/json_stream_parser.h
@@ -190,6 +190,7 @@ class JsonStreamParser {
 
   absl::Status HandleValueEnd();
   char PreprocessSeparator(char c);
+  void EscapeSingleQuote(char c);
   void InsertCommaIfMissing();
 
   std::string data_;
-- 
2.43.0


From 4cb513080326894f5c4b536ad24f02e4301f5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 15/25] fix: escape quotes and backslashes in tokens quoted by
 JsonStreamParser

---
 koladata/operators/json_stream_parser.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index 4a98b62..1a62687 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -21,7 +21,6 @@
 #include "arolla/util/status_macros_backport.h"
 #include "absl/strings/ascii.h"
 #include "absl/strings/numbers.h"
-#include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
 #include "absl/strings/string_view.h"
 
@@ -303,7 +302,14 @@ absl::Status JsonStreamParser::ProcessValueToken(char c) {
         if (vbegin_fn_) {
           vbegin_fn_(path_, ValueType::STRING);
         }
-        std::string quoted = absl::StrCat("\"", token, "\"");
+        std::string quoted = "\"";
+        for (char t : token) {
+          if (t == '"' || t == '\\') {
+            quoted.push_back('\\');
+          }
+          quoted.push_back(t);
+        }
+        quoted.push_back('"');
         data_.resize(data_available_pos_);
         data_.append(quoted);
         data_available_pos_ = data_.size();
-- 
2.43.0


From 7cc812c1a02dc5a985230dfefb8f9f453f9d3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 16/25] fix: do not write to a stream that is being closed

StreamWriter::TryClose marks the writer closed before it closes the stream.
A loop that saw its (cancelled) writer closed in between treated the loop as
finished, and TryWrite still appended the value reached so far as its result.
---
 koladata/functor/parallel/stream.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/koladata/functor/parallel/stream.cc b/koladata/functor/parallel/stream.cc
index ce866d8..c2f0316 100644
--- a/koladata/functor/parallel/stream.cc
+++ b/koladata/functor/parallel/stream.cc
@@ -257,6 +257,9 @@ bool StreamImpl::Writer::TryWrite(arolla::TypedRef value) {
     LOG(FATAL) << "expected a value of type " << value_qtype()->name()
                << ", got " << value.GetType()->name();
   }
+  if (closed_.test(std::memory_order_relaxed)) {
+    return false;  // The stream is already closed (or is being closed).
+  }
   auto stream = weak_stream_.lock();
   if (stream == nullptr) {
     return false;  // The stream object is gone.
-- 
2.43.0


From 825d88f3db2fb5483458ddb5742f55a71bcd3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 17/25] fix: report an abandoned stream_call as orphaned, not
 as an empty stream

---
 koladata/functor/parallel/stream_call.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/koladata/functor/parallel/stream_call.cc b/koladata/functor/parallel/stream_call.cc
index c8ff551..0e6fc5e 100644
--- a/koladata/functor/parallel/stream_call.cc
+++ b/koladata/functor/parallel/stream_call.cc
@@ -64,6 +64,14 @@ class StreamCallHooks final : public BasicRoutineHooks {
     args_.reserve(args_size_);
   }
 
+  ~StreamCallHooks() final {
+    if (!functor_called_) {
+      // The routine was abandoned, e.g. because the executor is shutting down.
+      // Note: This has no effect if the stream has already been closed.
+      composition_.AddError(absl::CancelledError("orphaned"));
+    }
+  }
+
   bool Interrupted() const final { return composition_.Orphaned(); }
 
   void OnCancel(absl::Status&& status) final { OnError(std::move(status)); }
@@ -117,6 +125,7 @@ class StreamCallHooks final : public BasicRoutineHooks {
     if (Interrupted()) {
       return nullptr;
     }
+    functor_called_ = true;
     ASSIGN_OR_RETURN(auto result, std::move(functor_)(args_),
                      OnError(std::move(_)));
     if (result.GetType() == return_value_type_) {
@@ -174,6 +183,7 @@ class StreamCallHooks final : public BasicRoutineHooks {
   const size_t args_size_;
   size_t awaited_arg_index_;
   std::vector<arolla::TypedRef> args_;
+  bool functor_called_ = false;
   StreamInterleave composition_;
 };
 
-- 
2.43.0


From 617dc4bf36285e7508bd3cba392244dadb085c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:33 +0000
Subject: [PATCH 18/25] fix: setting values of mixed types for duplicated
 objects keeps the last value

MultitypeDenseSource wrote the values of a mixed slice type by type, so for a
duplicated id the type written last won instead of the last value, and a text,
bytes or expression written earlier was overwritten by an empty one.
---
 koladata/internal/dense_source.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/koladata/internal/dense_source.cc b/koladata/internal/dense_source.cc
index c13b547..ce17ed5 100644
--- a/koladata/internal/dense_source.cc
+++ b/koladata/internal/dense_source.cc
@@ -293,11 +293,19 @@ class MultitypeDenseSource : public DenseSource {
     values.VisitValues([&]<class T>(const DenseArray<T>& array) {
       SetImpl</*RemoveMissing=*/false>(objects, array);
     });
-    const uint8_t* val_typeidx = values.types_buffer().id_to_typeidx.data();
+    // Values are written type by type, so in case of duplicated ids the type has
+    // to be taken from the last value.
+    const TypesBuffer& val_types = values.types_buffer();
+    absl::InlinedVector<uint8_t, 8> dst_typeidx;
+    for (KodaTypeId type_id : val_types.types) {
+      dst_typeidx.push_back(types_buffer_.get_or_add_typeidx(type_id));
+    }
     objects.ForEachPresent([&](int64_t val_offset, ObjectId id) {
-      if (obj_allocation_id_.Contains(id) &&
-          !TypesBuffer::is_present_type_idx(val_typeidx[val_offset])) {
-        types_buffer_.id_to_typeidx[id.Offset()] = TypesBuffer::kRemoved;
+      if (obj_allocation_id_.Contains(id)) {
+        uint8_t typeidx = val_types.id_to_typeidx[val_offset];
+        types_buffer_.id_to_typeidx[id.Offset()] =
+            TypesBuffer::is_present_type_idx(typeidx) ? dst_typeidx[typeidx]
+                                                      : TypesBuffer::kRemoved;
       }
     });
 
@@ -435,7 +443,11 @@ class MultitypeDenseSource : public DenseSource {
             types_buffer_.id_to_typeidx[offset] = typeidx;
           }
           if constexpr (!std::is_same_v<T, view_type_t<T>>) {
-            dst_vals[offset] = v.present ? T(v.value) : T();
+            if (v.present) {
+              dst_vals[offset] = T(v.value);
+            } else if constexpr (RemoveMissing) {
+              dst_vals[offset] = T();
+            }
           } else if constexpr (!std::is_same_v<T, arolla::Unit>) {
             if (v.present) {
               dst_vals[offset] = v.value;
-- 
2.43.0


From 41046e4f8249cb78572c4bcda13f31d028a58052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 19/25] fix: setting only missing values for a whole allocation
 removes the attribute

SetAttrFullAlloc took a slice without any value for all unset, even when its
values were removed ones, so nothing was removed: assigning None to an attribute
of a freshly created slice, or loading a serialized bag in which an attribute
had been removed, left (or revealed) the old values.
---
 koladata/data_slice.cc        | 4 +++-
 koladata/internal/data_bag.cc | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/koladata/data_slice.cc b/koladata/data_slice.cc
index 8b3f0f7..ba72262 100644
--- a/koladata/data_slice.cc
+++ b/koladata/data_slice.cc
@@ -1738,7 +1738,9 @@ absl::Status SetAttrImpl(const DataSlice& obj, absl::string_view attr_name,
                                                /*fallbacks=*/{}));
   }
   if (auto full_alloc = obj.GetFullAllocOrNone();
-      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall()) {
+      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall() &&
+      // SetAttrFullAlloc takes an empty slice of unknown type for all unset.
+      !data_handler.GetValues().slice().is_empty_and_unknown()) {
     return db_mutable_impl.SetAttrFullAlloc(
         *full_alloc, attr_name,
         data_handler.GetValues().slice().UnsetToRemoved());
diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index f765aa5..d8cca66 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -1157,14 +1157,17 @@ absl::Status DataBagImpl::SetAttrFullAlloc(AllocationId alloc_id,
                                            absl::string_view attr,
                                            const DataSliceImpl& values) {
   RETURN_IF_ERROR(CheckNotFrozen());
-  if (values.is_empty_and_unknown()) {
+  const auto& typeidx = values.types_buffer().id_to_typeidx;
+  if (values.is_empty_and_unknown() &&
+      std::find(typeidx.begin(), typeidx.end(), TypesBuffer::kRemoved) ==
+          typeidx.end()) {
     // All new values are unset -> no op
     return absl::OkStatus();
   }
   SourceKeyView kv{alloc_id, attr};
 
   bool use_new_dense_source;
-  if (alloc_id.IsSmall()) {
+  if (alloc_id.IsSmall() || values.is_empty_and_unknown()) {
     use_new_dense_source = false;
   } else if (values.types_buffer().id_to_typeidx.empty()) {
     // No unset values, so existing data sources can be ignored.
-- 
2.43.0


From 9834e38c34fc65b339daffce2f9794fb6eaeb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:41 +0000
Subject: [PATCH 20/25] fix: explicit schemas in big allocations are merged
 with the schema policy

MergeBigAllocImpl used data_conflict_policy for every attribute, although
schema_conflict_policy is documented to govern explicit schemas (and does so for
their attribute names).
---
 koladata/internal/data_bag.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index d8cca66..e148c47 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -3490,7 +3490,7 @@ absl::Status DataBagImpl::AddSmallAllocOverwritingUpdate(
 }
 
 absl::Status DataBagImpl::MergeBigAllocImpl(
-    const DataBagImpl& other, const MergeOptions& options,
+    const DataBagImpl& other, const MergeOptions& merge_options,
     absl::FunctionRef<SourceCollection&(AllocationId, absl::string_view)>
         get_this_collection) const {
   absl::flat_hash_set<SourceKey> used_keys;
@@ -3504,6 +3504,10 @@ absl::Status DataBagImpl::MergeBigAllocImpl(
         continue;
       }
       const auto& [alloc, attr_name] = source_key;
+      MergeOptions options = merge_options;
+      if (alloc.IsExplicitSchemasAlloc()) {
+        options.data_conflict_policy = options.schema_conflict_policy;
+      }
       ConstDenseSourceArray other_dense_sources;
       ConstSparseSourceArray other_sparse_sources;
       // NOTE we are taking sources from the top level DataBagImpl.
-- 
2.43.0


From 3a5d7191877f9630b94cf713b3e6b29758fa2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 21/25] fix: merging a dense source in which everything was
 removed overwrites

MultitypeDenseSource::MergeImpl ignored an all-removed slice (it has neither
values nor a types buffer), so the removals of the other data bag were lost.
---
 koladata/internal/dense_source.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/dense_source.cc b/koladata/internal/dense_source.cc
index ce17ed5..996b484 100644
--- a/koladata/internal/dense_source.cc
+++ b/koladata/internal/dense_source.cc
@@ -351,7 +351,12 @@ class MultitypeDenseSource : public DenseSource {
             });
       }
     };
-    if (values.types_buffer().size() == 0) {
+    if (values.is_empty_and_unknown() && values.types_buffer().size() == 0) {
+      // Without types buffer all values are removed.
+      for (int64_t offset = 0; offset < real_size; ++offset) {
+        handle_removed_value(offset);
+      }
+    } else if (values.types_buffer().size() == 0) {
       DenseArray<arolla::Unit> mask;
       values.VisitValues([&]<class T>(const DenseArray<T>& array) {
         mask = array.ToMask();
-- 
2.43.0


From c91a401ae4615efa6b35d0269777fe85ef258301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:49 +0000
Subject: [PATCH 22/25] fix: full copies of multi-type dense sources do not
 share their storage

---
 koladata/internal/dense_source.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/koladata/internal/dense_source.cc b/koladata/internal/dense_source.cc
index 996b484..671f6a1 100644
--- a/koladata/internal/dense_source.cc
+++ b/koladata/internal/dense_source.cc
@@ -46,6 +46,7 @@
 #include "arolla/expr/quote.h"
 #include "arolla/memory/buffer.h"
 #include "arolla/memory/optional_value.h"
+#include "arolla/memory/raw_buffer_factory.h"
 #include "arolla/qtype/qtype.h"
 #include "arolla/qtype/qtype_traits.h"
 #include "arolla/util/bytes.h"  // IWYU pragma: keep
@@ -208,7 +209,12 @@ class MultitypeDenseSource : public DenseSource {
     }
   }
 
-  DataSliceImpl GetAll(bool /*copy*/) const final {
+  DataSliceImpl GetAll(bool copy) const final {
+    return GetAll(copy, copy ? nullptr : shared_from_this());
+  }
+
+  // If copy==false, then `holder` should keep this DenseSource alive.
+  DataSliceImpl GetAll(bool copy, arolla::RawBufferPtr holder) const {
     SliceBuilder bldr(size_);
     bldr.GetMutableAllocationIds().Insert(attr_allocation_ids_);
     // Note: we use ApplyMask to set kUnset to kRemoved for removed values.
@@ -227,9 +233,13 @@ class MultitypeDenseSource : public DenseSource {
               bldr.InsertIfNotSet<T>(
                   bitmap, arolla::bitmap::Bitmap(),
                   arolla::StringsBuffer::Create(buf.begin(), buf.end()));
+            } else if (copy) {
+              bldr.InsertIfNotSet<T>(
+                  bitmap, arolla::bitmap::Bitmap(),
+                  arolla::Buffer<T>::Create(buf.begin(), buf.end()));
             } else {
               bldr.InsertIfNotSet<T>(bitmap, arolla::bitmap::Bitmap(),
-                                     arolla::Buffer<T>(nullptr, buf));
+                                     arolla::Buffer<T>(holder, buf));
             }
           },
           var);
@@ -719,7 +729,7 @@ class TypedDenseSource final : public DenseSource {
 
   DataSliceImpl GetAll(bool copy) const final {
     if (multitype_) {
-      return multitype_->GetAll(copy);
+      return multitype_->GetAll(copy, copy ? nullptr : shared_from_this());
     }
     TypesBuffer types_buffer;
     auto values = values_.GetAll(copy, copy ? nullptr : shared_from_this());
-- 
2.43.0


From c1a6b5a59cc1af1da0b89e2270c9d933b4c0c378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:46 +0000
Subject: [PATCH 23/25] fix: attributes of a whole allocation read from a
 mutable fallback are copied

---
 koladata/internal/data_bag.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index e148c47..f34b960 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -760,8 +760,12 @@ absl::StatusOr<DataSliceImpl> DataBagImpl::GetMaybeFullAllocAttrWithRemoved(
     return GetAttrImpl(objects, attr, fallbacks, /*with_removed=*/true);
   }
   for (const DataBagImpl* db : fallbacks) {
+    bool found_in_previous_bags = !dense_sources.empty();
     size_t alloc_size = db->GetAttributeDataSources(
         alloc_id, attr, dense_sources, sparse_sources);
+    if (!found_in_previous_bags) {
+      mutable_dense_source = !dense_sources.empty() && !db->IsFrozen();
+    }
     full_alloc = full_alloc || (alloc_size == objects.size());
     if (dense_sources.size() > 1 || !sparse_sources.empty()) {
       return GetAttrImpl(objects, attr, fallbacks, /*with_removed=*/true);
-- 
2.43.0


From bd75e078ef20247a363ed21083ab6e88d02b610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 24/25] fix: extract keeps attributes whose schemas differ
 within an allocation

ProcessObjectsAttribute handed the flag telling that the objects are an
entire allocation on to the groups it splits them into by schema, so values of
the wrong objects were read and written (or refused for their type).
---
 koladata/internal/op_utils/extract.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/extract.cc b/koladata/internal/op_utils/extract.cc
index c3ce99b..614749d 100644
--- a/koladata/internal/op_utils/extract.cc
+++ b/koladata/internal/op_utils/extract.cc
@@ -890,13 +890,16 @@ class CopyingProcessor {
               if (!status.ok()) {
                 return;
               }
+              // `full_alloc` describes `new_ds`, and a group is only a part of
+              // it.
+              bool group_full_alloc = false;
               status = ProcessAttribute(
                   {.slice =
                        DataSliceImpl::Create(std::move(new_ds_grouped[idx])),
                    .schema = DataItem(schema::kObject),
                    .schema_source = SchemaSource::kDataDatabag,
                    .depth = depth},
-                  attr_name, DataItem(attr_schema), full_alloc);
+                  attr_name, DataItem(attr_schema), group_full_alloc);
             });
           } else {
             DCHECK(false);
-- 
2.43.0


From 95ecec0b3ceb51cbb01ce1277180398710a907f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:15 +0000
Subject: [PATCH 25/25] fix: a prefix of an allocation with values of several
 types is read without the absent types

GetMaybeFullAllocAttrWithRemoved returned a slice that still claimed the types
its part does not have, so extract refused well typed data as mixed.
---
 koladata/internal/data_bag.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index f34b960..8b81c66 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -782,9 +782,15 @@ absl::StatusOr<DataSliceImpl> DataBagImpl::GetMaybeFullAllocAttrWithRemoved(
   DataSliceImpl res = dense_sources[0]->GetAll(/*copy=*/mutable_dense_source);
   if (res.size() == objects.size()) {
     return res;
-  } else {
-    return res.SubSlice(0, objects.size());
   }
+  if (!res.is_mixed_dtype()) {
+    res = res.SubSlice(0, objects.size());
+    if (res.present_count() > 0) {
+      return res;
+    }
+  }
+  // The prefix doesn't necessarily have values of all the types.
+  return GetAttrImpl(objects, attr, fallbacks, /*with_removed=*/true);
 }
 
 std::optional<DataItem> DataBagImpl::GetAttrWithRemoved(
-- 
2.43.0

