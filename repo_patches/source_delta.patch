From 2496b72168efa74dcc57969438fb90043780da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 01/35] fix: truncation to zero tokens and left-side truncation
 windows

---
 src/utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..7969f3f 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -51,8 +51,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   if (max_length == 0) {
-    encoding.overflowing = {};
-    return encoding;
+    Encoding empty_encoding;
+    empty_encoding.overflowing.push_back(encoding);
+    return empty_encoding;
   }
   int offset = max_length - stride;
   bool end = false;
@@ -66,8 +67,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
       }
     }
   } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
+    for (int stop = encoding.ids.size(); stop > 0; stop -= offset) {
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
         end = start == 0;
-- 
2.43.0


From 7de81f0be38607641d78d76f4f93b4b4c46f8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 02/35] fix: template processing keeps overflowing encodings

---
 src/post_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..c147995 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -202,6 +202,10 @@ Encoding TemplateProcessing::process(Encoding encoding,
                                  final_encoding.attention_mask.begin(),
                                  final_encoding.attention_mask.end());
   }
+  for (const Encoding& overflowing_encoding : encoding.overflowing) {
+    result.overflowing.push_back(
+        process(overflowing_encoding, add_special_tokens));
+  }
   return result;
 }
 
-- 
2.43.0


From 3a5056f289429135ca86a1232c17514dbb6f949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 03/35] fix: Replace, Fuse, Strip and ByteFallback decoders
 discarded every token

---
 src/decoder.cpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..119033f 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -4,6 +4,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <cctype>
 #include <iostream>
 #include <memory>
 #include <string>
@@ -155,21 +156,61 @@ ReplaceDecoder::ReplaceDecoder(const std::string& pattern,
 
 std::vector<std::string> ReplaceDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (pattern.length() == 0) {
+    return tokens;
+  }
+  for (std::string& token : tokens) {
+    token = replace(token, pattern, content);
+  }
+  return tokens;
 }
 
 ByteFallbackDecoder::ByteFallbackDecoder() {}
 
 std::vector<std::string> ByteFallbackDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::vector<std::string> result;
+  std::string bytes;
+  auto flush = [&result, &bytes]() {
+    if (bytes.length() == 0) {
+      return;
+    }
+    std::string valid;
+    icu::UnicodeString::fromUTF8(bytes).toUTF8String(valid);
+    if (valid == bytes) {
+      result.push_back(bytes);
+    } else {
+      for (size_t i = 0; i < bytes.length(); i++) {
+        result.push_back("\xEF\xBF\xBD");
+      }
+    }
+    bytes.clear();
+  };
+  for (const std::string& token : tokens) {
+    if (token.length() == 6 && token.compare(0, 3, "<0x") == 0 &&
+        token[5] == '>' &&
+        std::isxdigit(static_cast<unsigned char>(token[3])) &&
+        std::isxdigit(static_cast<unsigned char>(token[4]))) {
+      bytes.push_back(
+          static_cast<char>(std::stoi(token.substr(3, 2), nullptr, 16)));
+    } else {
+      flush();
+      result.push_back(token);
+    }
+  }
+  flush();
+  return result;
 }
 
 FuseDecoder::FuseDecoder() {}
 
 std::vector<std::string> FuseDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::string result;
+  for (const std::string& token : tokens) {
+    result += token;
+  }
+  return {result};
 }
 
 StripDecoder::StripDecoder(const std::string& content, int start, int stop)
@@ -177,7 +218,23 @@ StripDecoder::StripDecoder(const std::string& content, int start, int stop)
 
 std::vector<std::string> StripDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (content.length() == 0) {
+    return tokens;
+  }
+  for (std::string& token : tokens) {
+    for (int i = 0; i < start && token.length() >= content.length() &&
+                    token.compare(0, content.length(), content) == 0;
+         i++) {
+      token.erase(0, content.length());
+    }
+    for (int i = 0; i < stop && token.length() >= content.length() &&
+                    token.compare(token.length() - content.length(),
+                                  content.length(), content) == 0;
+         i++) {
+      token.erase(token.length() - content.length());
+    }
+  }
+  return tokens;
 }
 
 SequenceDecoder::SequenceDecoder(std::vector<std::unique_ptr<Decoder>> decoders)
-- 
2.43.0


From a318a31a9113281f671f6945d36f87578d7a4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 04/35] fix: byte-level decoder looks characters up by their
 UTF-8 form

---
 src/decoder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 119033f..eddc38d 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -260,13 +260,15 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
   std::string result;
   for (const auto& token : tokens) {
     icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
-    for (int i = 0; i < unicode_token.length(); i++) {
-      auto ch = unicode_token.char32At(i);
-      auto it = CHAR_BYTES.find(std::string(1, ch));
+    for (int i = 0; i < unicode_token.length();
+         i = unicode_token.moveIndex32(i, 1)) {
+      std::string ch;
+      icu::UnicodeString(unicode_token.char32At(i)).toUTF8String(ch);
+      auto it = CHAR_BYTES.find(ch);
       if (it != CHAR_BYTES.end()) {
         result.push_back(static_cast<char>(it->second));
       } else {
-        result.push_back(ch);
+        result += ch;
       }
     }
   }
-- 
2.43.0


From b6e47a17f77578e568fdd1170f43e98d355935c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 05/35] fix: truncated UTF-8 at the end of the input is an
 error

---
 src/common.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index d98c463..f4376fe 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -63,7 +64,11 @@ std::string convert_to_string(std::wstring sequence) {
 
 std::wstring convert_from_string(std::string sequence) {
   std::wstring_convert<std::codecvt_utf8<wchar_t>> converter;
-  return converter.from_bytes(sequence);
+  std::wstring result = converter.from_bytes(sequence);
+  if (converter.converted() != sequence.length()) {
+    throw std::range_error("Incomplete UTF-8 sequence");
+  }
+  return result;
 }
 
 std::unordered_map<uint16_t, std::string> bytes_char() {
-- 
2.43.0


From 7bef8278c2c8de688838c87137eba9b3d9c52798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 06/35] fix: byte-level pre-tokenizer handles bytes above 127

---
 src/pre_tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..bab261e 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -265,7 +265,7 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   for (Split& split : pre_tokenized.splits) {
     std::string new_split_normalized;
     for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<int>(c));
+      new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
     }
     split.normalized = new_split_normalized;
   }
-- 
2.43.0


From c1ef3a3bc7ec2ca8a78bfac930d08f617b69bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 07/35] fix: alignment and split offsets count characters, not
 UTF-16 units

---
 src/normalizer.cpp    | 5 +++--
 src/pre_tokenizer.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..a39c58d 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -48,9 +48,10 @@ NormalizedString::NormalizedString(std::wstring normalized)
       reinterpret_cast<const UChar32*>(normalized.c_str()),
       normalized.length());
   int idx = 0;
-  for (int i = 0; i < unicode_normalized.length(); i++) {
+  for (int i = 0, unit = 0; unit < unicode_normalized.length();
+       i++, unit = unicode_normalized.moveIndex32(unit, 1)) {
     icu::UnicodeString unicode_normalized_str;
-    unicode_normalized_str.append(unicode_normalized.char32At(i));
+    unicode_normalized_str.append(unicode_normalized.char32At(unit));
     std::string normalized_str;
     unicode_normalized_str.toUTF8String(normalized_str);
     offset_ranges.push_back({idx, normalized_str.length()});
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index bab261e..55363c5 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -168,8 +168,10 @@ std::vector<Split> split_normalized(
           .toUTF8String(split_unicode_normalized);
       new_splits.push_back(
           Split(split_unicode_normalized,
-                {match.first.first + original_split.offsets.first,
-                 match.first.second + original_split.offsets.first}));
+                {unicode_normalized.countChar32(0, match.first.first) +
+                     original_split.offsets.first,
+                 unicode_normalized.countChar32(0, match.first.second) +
+                     original_split.offsets.first}));
     }
   }
   return new_splits;
-- 
2.43.0


From a7687ef81d11d2daa8d8231a6205f86c9f1bf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 08/35] fix: byte-level prefix space keeps earlier pieces and
 accepts empty text

---
 src/pre_tokenizer.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 55363c5..70db065 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -249,12 +249,23 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
-    pre_tokenized.normalized.normalized =
-        std::wstring(L" ") + pre_tokenized.normalized.normalized;
-    pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-    pre_tokenized = PreTokenizedString(pre_tokenized.normalized);
+  if (add_prefix_space) {
+    int shift = 0;
+    for (Split& split : pre_tokenized.splits) {
+      split.offsets.first += shift;
+      split.offsets.second += shift;
+      std::wstring& text = pre_tokenized.normalized.normalized;
+      if (split.tokens.size() != 0 ||
+          split.offsets.first == split.offsets.second ||
+          std::iswspace(text.at(split.offsets.first))) {
+        continue;
+      }
+      text.insert(split.offsets.first, 1, L' ');
+      pre_tokenized.normalized.transform(split.offsets.first, "add", 1);
+      split.normalized = " " + split.normalized;
+      split.offsets.second += 1;
+      shift += 1;
+    }
   }
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
@@ -265,6 +276,9 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
   for (Split& split : pre_tokenized.splits) {
+    if (split.tokens.size() != 0) {
+      continue;
+    }
     std::string new_split_normalized;
     for (const char c : split.normalized) {
       new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
-- 
2.43.0


From 256325b402b478bfb9f90abb3718e6ef605a4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 09/35] fix: Split honours invert and the merging behaviours
 instead of dropping text

---
 include/tokenizers/common.h |  8 +++++++-
 src/common.cpp              |  9 +++++++++
 src/pre_tokenizer.cpp       | 36 ++++++++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/include/tokenizers/common.h b/include/tokenizers/common.h
index 8d9b135..8b940f2 100644
--- a/include/tokenizers/common.h
+++ b/include/tokenizers/common.h
@@ -37,7 +37,13 @@ class Token {
   Token(int id, std::string value, std::pair<int, int> offsets);
 };
 
-enum SPLIT_DELIMITER_BEHAVIOR { REMOVED, ISOLATED };
+enum SPLIT_DELIMITER_BEHAVIOR {
+  REMOVED,
+  ISOLATED,
+  MERGED_WITH_PREVIOUS,
+  MERGED_WITH_NEXT,
+  CONTIGUOUS
+};
 
 SPLIT_DELIMITER_BEHAVIOR
 get_split_delimiter_behavior(const std::string &behavior);
diff --git a/src/common.cpp b/src/common.cpp
index f4376fe..83d0f3b 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -25,6 +25,15 @@ SPLIT_DELIMITER_BEHAVIOR get_split_delimiter_behavior(
   if (behavior == "Isolated") {
     return ISOLATED;
   }
+  if (behavior == "MergedWithPrevious") {
+    return MERGED_WITH_PREVIOUS;
+  }
+  if (behavior == "MergedWithNext") {
+    return MERGED_WITH_NEXT;
+  }
+  if (behavior == "Contiguous") {
+    return CONTIGUOUS;
+  }
   return REMOVED;
 }
 
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 70db065..3156e63 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -140,6 +140,29 @@ std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(
   return find_matches(pattern, input);
 }
 
+// Joins matches with their neighbours; the pieces it returns are all kept
+std::vector<std::pair<std::pair<int, int>, bool>> merge_matches(
+    const std::vector<std::pair<std::pair<int, int>, bool>>& matches,
+    SPLIT_DELIMITER_BEHAVIOR pattern) {
+  std::vector<std::pair<std::pair<int, int>, bool>> result;
+  for (size_t i = 0; i < matches.size(); i++) {
+    bool joined = false;
+    if (i > 0) {
+      bool previous = matches[i - 1].second;
+      bool current = matches[i].second;
+      joined = (pattern == CONTIGUOUS && previous == current) ||
+               (pattern == MERGED_WITH_PREVIOUS && current && !previous) ||
+               (pattern == MERGED_WITH_NEXT && previous && !current);
+    }
+    if (joined) {
+      result.back().first.second = matches[i].first.second;
+    } else {
+      result.push_back({matches[i].first, false});
+    }
+  }
+  return result;
+}
+
 std::vector<Split> split_normalized(
     Split original_split,
     std::function<
@@ -159,9 +182,12 @@ std::vector<Split> split_normalized(
         match.second = false;
       }
       break;
+    default:
+      matches = merge_matches(matches, pattern);
+      break;
   }
   for (auto match : matches) {
-    if (!match.second) {
+    if (!match.second && match.first.first != match.first.second) {
       std::string split_unicode_normalized;
       unicode_normalized
           .tempSubStringBetween(match.first.first, match.first.second)
@@ -231,7 +257,13 @@ PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-    return find_matches(pattern, input);
+    auto matches = find_matches(pattern, input);
+    if (invert) {
+      for (auto& match : matches) {
+        match.second = !match.second;
+      }
+    }
+    return matches;
   };
 
   pre_tokenized.split(matches_regex, behavior);
-- 
2.43.0


From 171f17d5b33b3b8b48f863fe6f466dcc9eb7d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 10/35] fix: an invalid Split pattern throws instead of
 dereferencing null

---
 src/pre_tokenizer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 3156e63..f5d1873 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -11,6 +11,7 @@
 #include <numeric>
 #include <optional>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -106,6 +107,9 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
   UErrorCode status = U_ZERO_ERROR;
   icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
       icu::UnicodeString::fromUTF8(regex), 0, status);
+  if (U_FAILURE(status)) {
+    throw std::invalid_argument("Invalid regular expression: " + regex);
+  }
   icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
   while (matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
@@ -251,7 +255,9 @@ SplitPreTokenizer::SplitPreTokenizer(const std::string& pattern,
                                      const std::string& behavior, bool invert)
     : pattern(pattern),
       behavior(get_split_delimiter_behavior(behavior)),
-      invert(invert) {}
+      invert(invert) {
+  find_matches(pattern, icu::UnicodeString());  // throws when it is invalid
+}
 
 PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-- 
2.43.0


From 1fe56ce8627678c94594ac3881d1f1ba4fa912a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 11/35] fix: BERT pre-tokenizer splits on ASCII symbols that
 count as punctuation

---
 src/pre_tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index f5d1873..96318f0 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -140,7 +140,7 @@ std::vector<std::pair<std::pair<int, int>, bool>> is_whitespace(
 
 std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(
     icu::UnicodeString input) {
-  std::string pattern = "\\p{P}";
+  std::string pattern = "[\\p{P}$+<=>^`|~]";  // ASCII symbols included
   return find_matches(pattern, input);
 }
 
-- 
2.43.0


From 811407a3a0b369914f5423c03fdae05cb9b26304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 12/35] fix: byte-level pre-tokenizer pattern was cut to its
 first four characters

---
 src/pre_tokenizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 96318f0..0379ac8 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -281,8 +281,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
       regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)",
-          std::regex_constants::optimize),
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
-- 
2.43.0


From 4db001926c05ee0896e140e818c40b96dc364f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 13/35] fix: BPE applies the lowest ranked merge first,
 leftmost first

---
 include/tokenizers/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..1297658 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -67,7 +67,10 @@ class Merge {
   int rank;
   int new_id;
   Merge(int pos, int rank, int new_id);
-  bool operator<(const Merge &other) const { return rank < other.rank; }
+  // std::priority_queue pops the greatest: the lowest rank, leftmost first
+  bool operator<(const Merge &other) const {
+    return rank != other.rank ? rank > other.rank : pos > other.pos;
+  }
 };
 
 struct PairHash {
-- 
2.43.0


From f01aaa9af13d30c6f7f6ab0751fbf5d53bf89798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 14/35] fix: BPE merging an empty word read out of bounds

---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..0f5046a 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -229,7 +229,7 @@ void Word::merge_all(
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
-- 
2.43.0


From b171b6d9da3b58babddfbe70049dc1896c3d9678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 15/35] fix: BPE works on characters, not on the bytes of their
 UTF-8 form

---
 include/tokenizers/model.h |  3 ++-
 src/model.cpp              | 24 +++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1297658..51d977f 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -115,6 +115,7 @@ class BPE : public Model {
  private:
   mutable std::unordered_map<std::string, Word> cache;
   Word merge_word(std::string sequence) const;
-  std::vector<Token> word_to_tokens(const Word &word) const;
+  std::vector<Token> word_to_tokens(const Word &word,
+                                    const std::string &sequence) const;
   std::vector<Token> tokenize_with_cache(const std::string &sequence) const;
 };
diff --git a/src/model.cpp b/src/model.cpp
index 0f5046a..4a3ce5b 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -339,8 +339,11 @@ Word BPE::merge_word(std::string sequence) const {
   int length = sequence.size();
   Word word;
   std::optional<std::pair<int, int>> unk;
-  for (int i = 0; i < length; i++) {
-    int end = (i + 1 < length) ? i + 1 : length;
+  for (int i = 0, end = 0; i < length; i = end) {
+    end = i + 1;
+    while (end < length && (sequence[end] & 0xC0) == 0x80) {
+      end++;
+    }
     bool is_first = (i == 0);
     bool is_last = (end == length);
 
@@ -407,12 +410,19 @@ Word BPE::merge_word(std::string sequence) const {
   return word;
 }
 
-std::vector<Token> BPE::word_to_tokens(const Word& word) const {
+std::vector<Token> BPE::word_to_tokens(const Word& word,
+                                       const std::string& sequence) const {
   std::vector<Token> result;
+  std::vector<int> char_idx;  // character each byte belongs to
+  for (const char b : sequence) {
+    bool continuation = (b & 0xC0) == 0x80 && !char_idx.empty();
+    char_idx.push_back(char_idx.empty() ? 0 : char_idx.back() + !continuation);
+  }
   int pos = 0;
   for (auto symbol : word.symbols) {
     int new_pos = pos + symbol.len;
-    result.push_back(Token(symbol.c, vocab_r.at(symbol.c), {pos, new_pos}));
+    result.push_back(Token(symbol.c, vocab_r.at(symbol.c),
+                           {char_idx[pos], char_idx[new_pos - 1] + 1}));
     pos = new_pos;
   }
   return result;
@@ -427,10 +437,10 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   }
   auto it = cache.find(sequence);
   if (it != cache.end()) {
-    return word_to_tokens(it->second);
+    return word_to_tokens(it->second, sequence);
   }
   auto word = merge_word(sequence);
-  auto result = word_to_tokens(word);
+  auto result = word_to_tokens(word, sequence);
   cache.insert({sequence, word});
   return result;
 }
@@ -442,7 +452,7 @@ PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
       split.tokens = tokenize_with_cache(sequence);
     } else {
       auto word = merge_word(sequence);
-      split.tokens = word_to_tokens(word);
+      split.tokens = word_to_tokens(word, sequence);
     }
   }
   return pre_tokenized;
-- 
2.43.0


From 1d6e927ef6f069790095142cd6855db996eae414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 16/35] fix: BPE byte fallback looks up <0xNN> tokens, all
 bytes of a character or none

---
 src/model.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 4a3ce5b..9be0f94 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -4,6 +4,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <iomanip>
 #include <iostream>
 #include <memory>
 #include <optional>
@@ -367,26 +368,28 @@ Word BPE::merge_word(std::string sequence) const {
       word.add(it->second, sub_len);
     } else {
       if (byte_fallback) {
-        std::vector<std::optional<int>> tokens;
-        for (auto b : sub_sequence) {
+        std::vector<int> tokens;
+        for (int j = i; j < end; j++) {
           std::ostringstream oss;
-          oss << "<" << std::hex << std::setw(4) << std::setfill('0') << b
+          oss << "<0x" << std::uppercase << std::hex << std::setw(2)
+              << std::setfill('0')
+              << static_cast<int>(static_cast<unsigned char>(sequence[j]))
               << ">";
-          auto code = oss.str();
-          auto token_it = vocab.find(code);
-          tokens.push_back((token_it != vocab.end())
-                               ? std::optional<int>(token_it->second)
-                               : std::nullopt);
-        }
-        bool added = false;
-        for (auto& token : tokens) {
-          if (token.has_value()) {
-            word.add(token.value(), 1);
-            added = true;
+          auto token_it = vocab.find(oss.str());
+          if (token_it != vocab.end()) {
+            tokens.push_back(token_it->second);
           }
         }
-        if (added)
+        if (tokens.size() == sub_len) {
+          if (unk.has_value()) {
+            word.add(unk->first, unk->second);
+            unk.reset();
+          }
+          for (int token : tokens) {
+            word.add(token, 1);
+          }
           continue;
+        }
       }
       if (unk_token.size() != 0) {
         if (unk.has_value() && fuse_unk) {
-- 
2.43.0


From 16414e3f39264c6d6951629eb7cc73dbd7be0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 17/35] fix: ignore_merges tokens cover the whole word

---
 src/model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9be0f94..4ad25f3 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -435,7 +435,8 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   if (ignore_merges) {
     auto it = vocab.find(sequence);
     if (it != vocab.end()) {
-      return {Token(it->second, sequence, {0, 0})};
+      int char_len = icu::UnicodeString::fromUTF8(sequence).countChar32();
+      return {Token(it->second, sequence, {0, char_len})};
     }
   }
   auto it = cache.find(sequence);
-- 
2.43.0


From a89ffa120cc4720b12a58e3182e378acb2ab8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 18/35] fix: WordPiece counts characters and never cuts one in
 two

---
 src/model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 4ad25f3..687d5f4 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -145,7 +145,7 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
     icu::UnicodeString unicode_sequence =
         icu::UnicodeString::fromUTF8(split.normalized);
-    int char_len = unicode_sequence.length();
+    int char_len = unicode_sequence.countChar32();
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
       if (it == vocab.end()) {
@@ -172,11 +172,14 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
         if (vocab.count(sub_sequence) != 0) {
           auto it = vocab.find(sub_sequence);
           if (it != vocab.end()) {
-            cur_sequence_token = Token(it->second, sub_sequence, {start, end});
+            cur_sequence_token =
+                Token(it->second, sub_sequence,
+                      {unicode_sequence.countChar32(0, start),
+                       unicode_sequence.countChar32(0, end)});
           }
           break;
         }
-        end -= 1;
+        end = unicode_sequence.moveIndex32(end, -1);
       }
       if (!cur_sequence_token.has_value()) {
         is_bad = true;
-- 
2.43.0


From fc0868719fead47d78aa16210a6ca6a2110a2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 19/35] fix: alignment edits and Unicode forms keep every
 character's origin

Erasing left later byte ranges stale and clean_text erased the wrong entries;
NFC, NFD, NFKC and NFKD counted every changed character as two.
---
 include/tokenizers/normalizer.h |   3 +
 src/normalizer.cpp              | 260 +++++++++++---------------------
 2 files changed, 92 insertions(+), 171 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 8031913..61f610b 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -42,6 +42,9 @@ class NormalizedString {
   explicit NormalizedString(std::wstring normalized);
   NormalizedString(std::wstring normalized,
                    const std::vector<std::pair<int, int>> &offsets);
+  std::pair<int, int> origin(int i) const;
+  void assign(const std::wstring &text,
+              const std::vector<std::pair<int, int>> &origins);
   void transform(int i, std::string op, int n);
   void transform_range(std::pair<int, int> original_offsets,
                        NormalizedString sub_normalized);
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index a39c58d..9b23769 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -4,6 +4,7 @@
 #include <unicode/normlzr.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
+#include <unicode/utf8.h>
 
 #include <algorithm>
 #include <functional>
@@ -205,201 +206,115 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
 void NormalizedString::transform(int i, std::string op, int n) {
   int start = offset_ranges[i].first;
   int limit = offset_ranges[i].second;
-  if (op == "erase") {
-    offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
-    offset_ranges.erase(offset_ranges.begin() + i,
-                        offset_ranges.begin() + i + 1);
-  } else if (op == "pad") {
-    std::pair<int, int> offset = offsets[start];
-    std::vector<std::pair<int, int>> new_offsets(2, offset);
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
-    std::vector<std::pair<int, int>> new_offset_ranges = {
-        {start, 1}, {start + 1, limit}, {start + limit + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + 3; j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
-    }
-  } else if (op == "grow") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, 1},
-                                                          {start + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-  } else if (op == "shrink") {
-    offset_ranges.erase(offset_ranges.begin() + i);
-  } else if (op == "add" || op == "replace") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, n}};
-    if (op == "add") {
-      new_offset_ranges.push_back({start + n, limit});
-    }
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + (op == "add" ? 2 : 1); j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
-    }
-    std::vector<std::pair<int, int>> new_offsets((op == "add" ? n : n - 1),
-                                                 {offsets[start]});
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
+  std::vector<int> new_limits;  // bytes of each character put in the place of i
+  if (op == "pad") {
+    new_limits = {1, limit, 1};
+  } else if (op == "add") {
+    new_limits = {n, limit};
+  } else if (op == "replace") {
+    new_limits = {n};
+  } else if (op != "erase") {
+    return;
+  }
+  std::pair<int, int> offset = offsets[start];
+  int total = std::accumulate(new_limits.begin(), new_limits.end(), 0);
+  offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
+  offsets.insert(offsets.begin() + start, total, offset);
+  std::vector<std::pair<int, int>> new_offset_ranges;
+  for (int new_limit : new_limits) {
+    new_offset_ranges.push_back({start, new_limit});
+  }
+  offset_ranges.erase(offset_ranges.begin() + i);
+  offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
+                       new_offset_ranges.end());
+  for (size_t j = i; j < offset_ranges.size(); j++) {
+    offset_ranges[j].first =
+        j == 0 ? 0 : offset_ranges[j - 1].first + offset_ranges[j - 1].second;
   }
 }
 
-NFC::NFC() {}
+std::pair<int, int> NormalizedString::origin(int i) const {
+  return offsets[offset_ranges[i].first];
+}
 
-NormalizedString NFC::normalize(NormalizedString normalized) const {
+void NormalizedString::assign(
+    const std::wstring& text, const std::vector<std::pair<int, int>>& origins) {
+  normalized = text;
+  offsets.clear();
+  offset_ranges.clear();
+  for (size_t i = 0; i < text.length(); i++) {
+    int limit = U8_LENGTH(static_cast<UChar32>(text[i]));
+    offset_ranges.push_back({offsets.size(), limit});
+    offsets.insert(offsets.end(), limit, origins[i]);
+  }
+}
+
+std::wstring convert_to_form(const std::wstring& text,
+                             UNormalizationMode mode) {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFC, 0,
-                             unicode_normalized, status);
+  icu::UnicodeString unicode_text = icu::UnicodeString::fromUTF32(
+      reinterpret_cast<const UChar32*>(text.c_str()), text.length());
+  icu::Normalizer::normalize(unicode_text, mode, 0, unicode_text, status);
   if (U_FAILURE(status)) {
     throw std::runtime_error("ICU normalization failed with error code: " +
                              std::to_string(status));
   }
   std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
+  result.resize(unicode_text.countChar32());
+  unicode_text.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
+                       unicode_text.countChar32(), status);
+  return result;
+}
+
+// Text and its normalization form decompose to the same number of characters,
+// which says what each character of the form was made of
+NormalizedString normalize_to_form(NormalizedString normalized,
+                                   UNormalizationMode mode) {
+  bool compatible = mode == UNORM_NFKC || mode == UNORM_NFKD;
+  bool composed = mode == UNORM_NFC || mode == UNORM_NFKC;
+  std::vector<std::pair<int, int>> decomposed;
+  for (size_t i = 0; i < normalized.normalized.length(); i++) {
+    size_t length = convert_to_form(normalized.normalized.substr(i, 1),
+                                    compatible ? UNORM_NFKD : UNORM_NFD)
+                        .length();
+    decomposed.insert(decomposed.end(), length, normalized.origin(i));
+  }
+  std::wstring result = convert_to_form(normalized.normalized, mode);
+  std::vector<std::pair<int, int>> origins;
+  size_t start = 0;
+  for (size_t i = 0; i < result.length(); i++) {
+    size_t length =
+        composed ? convert_to_form(result.substr(i, 1), UNORM_NFD).length() : 1;
+    origins.push_back(
+        {decomposed[start].first, decomposed[start + length - 1].second});
+    start += length;
+  }
+  normalized.assign(result, origins);
   return normalized;
 }
 
+NFC::NFC() {}
+
+NormalizedString NFC::normalize(NormalizedString normalized) const {
+  return normalize_to_form(normalized, UNORM_NFC);
+}
+
 NFD::NFD() {}
 
 NormalizedString NFD::normalize(NormalizedString normalized) const {
-  UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  return normalize_to_form(normalized, UNORM_NFD);
 }
 
 NFKC::NFKC() {}
 
 NormalizedString NFKC::normalize(NormalizedString normalized) const {
-  UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKC, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  return normalize_to_form(normalized, UNORM_NFKC);
 }
 
 NFKD::NFKD() {}
 
 NormalizedString NFKD::normalize(NormalizedString normalized) const {
-  UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  return normalize_to_form(normalized, UNORM_NFKD);
 }
 
 BertNormalizer::BertNormalizer(bool clean_text, bool handle_chinese_chars,
@@ -461,13 +376,16 @@ NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
     if (c != 0 && c != 0xFFFD && !is_control(c)) {
       if (is_whitespace(c)) {
         result.push_back(L' ');
+        if (U8_LENGTH(static_cast<UChar32>(c)) != 1) {
+          normalized.transform(i, "replace", 1);
+        }
       } else {
         result.push_back(c);
       }
+      i++;
     } else {
       normalized.transform(i, "erase", 0);
     }
-    i++;
   }
   normalized.normalized = result;
   return normalized;
@@ -525,7 +443,7 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
   }
   int multi = 0;
   for (auto id : shrink_ids) {
-    nfd_normalized.transform(id + multi, "shrink", 0);
+    nfd_normalized.transform(id + multi, "erase", 0);
     multi -= 1;
   }
   nfd_normalized.normalized = result;
-- 
2.43.0


From 6463382856b20bdfe026d0f9f7b4e81a31cd74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 20/35] fix: BERT normalization classifies and lowercases all
 of Unicode

The C library functions know only ASCII in the default locale, and the
ideographs U+2B820 to U+2B91F were left out.
---
 src/normalizer.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 9b23769..515f24c 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -341,14 +341,7 @@ NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {
 }
 
 bool is_whitespace(wchar_t c) {
-  switch (c) {
-    case L'\t':
-    case L'\n':
-    case L'\r':
-      return true;
-    default:
-      return std::iswspace(c);
-  }
+  return u_isUWhiteSpace(static_cast<UChar32>(c));
 }
 
 bool is_control(wchar_t c) {
@@ -358,14 +351,15 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return (U_GET_GC_MASK(static_cast<UChar32>(c)) &
+              (U_GC_CC_MASK | U_GC_CF_MASK)) != 0;
   }
 }
 
 bool is_chinese_char(wchar_t c) {
   return (c >= 0x4E00 && c <= 0x9FFF) || (c >= 0x3400 && c <= 0x4DBF) ||
          (c >= 0x20000 && c <= 0x2A6DF) || (c >= 0x2A700 && c <= 0x2B73F) ||
-         (c >= 0x2B740 && c <= 0x2B81F) || (c >= 0x2B920 && c <= 0x2CEAF) ||
+         (c >= 0x2B740 && c <= 0x2B81F) || (c >= 0x2B820 && c <= 0x2CEAF) ||
          (c >= 0xF900 && c <= 0xFAFF) || (c >= 0x2F800 && c <= 0x2FA1F);
 }
 
@@ -452,7 +446,14 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
   std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
+  for (size_t i = 0; i < result.length(); i++) {
+    UChar32 c = static_cast<UChar32>(result[i]);
+    UChar32 lower = u_tolower(c);
+    if (U8_LENGTH(lower) != U8_LENGTH(c)) {
+      normalized.transform(i, "replace", U8_LENGTH(lower));
+    }
+    result[i] = lower;
+  }
   normalized.normalized = result;
   return normalized;
 }
-- 
2.43.0


From 20c180aba3913dc6b960e8440fb78550abc1cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 21/35] fix: Prepend aligns whole characters and leaves empty
 text empty

---
 src/normalizer.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 515f24c..1513853 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -476,9 +476,15 @@ NormalizedString SequenceNormalizer::normalize(
 Prepend::Prepend(const std::string& prepend) : prepend(prepend) {}
 
 NormalizedString Prepend::normalize(NormalizedString normalized) const {
-  std::wstring result = convert_from_string(prepend) + normalized.normalized;
-  normalized.transform(0, "add", prepend.length());
-  normalized.normalized = result;
+  if (normalized.normalized.empty()) {
+    return normalized;
+  }
+  std::wstring prefix = convert_from_string(prepend);
+  for (size_t i = prefix.length(); i > 0; i--) {
+    normalized.transform(0, "add",
+                         U8_LENGTH(static_cast<UChar32>(prefix[i - 1])));
+  }
+  normalized.normalized = prefix + normalized.normalized;
   return normalized;
 }
 
-- 
2.43.0


From 001a047b3e1757b321d356d429f458930554051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 22/35] fix: Replace substitutes every literal occurrence of
 its pattern

The pattern was compiled as a regular expression, the text was edited while
its matches were being iterated and only one character of a match was removed.
---
 src/normalizer.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 1513853..d216640 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -492,27 +492,30 @@ Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
-  std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
-  std::wsregex_iterator end;
+  std::wstring text = normalized.normalized;
+  std::wstring replace_pattern = convert_from_string(pattern);
   std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
-    ++it;
+  if (replace_pattern.empty()) {
+    return normalized;
   }
-  int multi = 0;
-  for (auto i : replace_ids) {
-    normalized.transform(i + multi, "replace", content.length());
-    multi += replace_content.length();
+  std::wstring result;
+  std::vector<std::pair<int, int>> origins;
+  size_t i = 0;
+  while (i < text.length()) {
+    if (text.compare(i, replace_pattern.length(), replace_pattern) == 0) {
+      size_t end = i + replace_pattern.length();
+      result += replace_content;
+      origins.insert(
+          origins.end(), replace_content.length(),
+          {normalized.origin(i).first, normalized.origin(end - 1).second});
+      i = end;
+    } else {
+      result += text[i];
+      origins.push_back(normalized.origin(i));
+      i++;
+    }
   }
+  normalized.assign(result, origins);
   return normalized;
 }
 
-- 
2.43.0


From 380f881a55fec68e34dd2d72c974b826e5e152dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 23/35] fix: Strip and StripAccents keep the alignment, Strip
 knows Unicode whitespace

---
 src/normalizer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index d216640..b5dfc38 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -525,18 +525,20 @@ Strip::Strip(bool strip_left, bool strip_right)
 NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
-    while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+    while (start < end && is_whitespace(normalized.normalized[start])) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
-                              normalized.normalized[end - 1]))) {
+    while (end > start && is_whitespace(normalized.normalized[end - 1])) {
       --end;
     }
   }
+  for (int i = normalized.normalized.size(); i > 0; --i) {
+    if (i > end || i <= start) {
+      normalized.transform(i - 1, "erase", 0);
+    }
+  }
   normalized.normalized = normalized.normalized.substr(start, end - start);
   return normalized;
 }
@@ -550,6 +552,8 @@ NormalizedString StripAccents::normalize(NormalizedString normalized) const {
   for (wchar_t ch : normalized.normalized) {
     if (!isCombiningMark(ch)) {
       result += ch;
+    } else {
+      normalized.transform(result.length(), "erase", 0);
     }
   }
   normalized.normalized = result;
-- 
2.43.0


From 0c87c1c9e641dcae29f9404a0d792e8bd28b9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 24/35] fix: splicing normalized text keeps text, byte ranges
 and origins in step

---
 src/normalizer.cpp | 60 ++++++++++++----------------------------------
 1 file changed, 15 insertions(+), 45 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index b5dfc38..7e7085b 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -155,52 +155,22 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
                                        NormalizedString sub_normalized) {
   int original_start = original_offsets.first;
   int original_end = original_offsets.second;
-  int offsets_start = offset_ranges[original_start].first;
-  int offsets_end = original_end == offset_ranges.size()
-                        ? offset_ranges[original_end - 1].first
-                        : offset_ranges[original_end].first;
-  std::vector<std::pair<int, int>> new_offset_ranges;
-  for (int i = 0; i < sub_normalized.offset_ranges.size(); i++) {
-    if (i == 0) {
-      sub_normalized.offset_ranges[i].first =
-          offset_ranges[original_start].first;
-    } else {
-      sub_normalized.offset_ranges[i].first =
-          sub_normalized.offset_ranges[i - 1].first +
-          sub_normalized.offset_ranges[i - 1].second;
-    }
-    new_offset_ranges.push_back(sub_normalized.offset_ranges[i]);
-  }
-  int j = new_offset_ranges.size();
-  for (int i = original_end; i < offset_ranges.size(); i++) {
-    new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
-         offset_ranges[i].second});
-    j++;
-  }
-  std::pair<int, int> prev;
-  for (int i = 0; i < sub_normalized.offsets.size(); i++) {
-    if (i == 0) {
-      prev = sub_normalized.offsets[i];
-      sub_normalized.offsets[i].first = offsets[offsets_start].first;
-      sub_normalized.offsets[i].second = offsets[offsets_start].second;
-    } else {
-      if (prev == sub_normalized.offsets[i]) {
-        sub_normalized.offsets[i] = sub_normalized.offsets[i - 1];
-      } else {
-        prev = sub_normalized.offsets[i];
-        sub_normalized.offsets[i] = {sub_normalized.offsets[i - 1].second,
-                                     sub_normalized.offsets[i - 1].second + 1};
-      }
-    }
+  std::wstring result =
+      normalized.substr(0, original_start) + sub_normalized.normalized;
+  std::vector<std::pair<int, int>> origins;
+  for (int i = 0; i < original_start; i++) {
+    origins.push_back(origin(i));
+  }
+  for (int i = 0; i < sub_normalized.normalized.length(); i++) {
+    std::pair<int, int> sub_origin = sub_normalized.origin(i);
+    origins.push_back({origin(original_start + sub_origin.first).first,
+                       origin(original_start + sub_origin.second - 1).second});
+  }
+  for (int i = original_end; i < normalized.length(); i++) {
+    result.push_back(normalized[i]);
+    origins.push_back(origin(i));
   }
-  offset_ranges.erase(offset_ranges.begin() + original_start,
-                      offset_ranges.end());
-  offset_ranges.insert(offset_ranges.begin() + original_start,
-                       new_offset_ranges.begin(), new_offset_ranges.end());
-  offsets.erase(offsets.begin() + offsets_start, offsets.begin() + offsets_end);
-  offsets.insert(offsets.begin() + offsets_start,
-                 sub_normalized.offsets.begin(), sub_normalized.offsets.end());
+  assign(result, origins);
 }
 
 void NormalizedString::transform(int i, std::string op, int n) {
-- 
2.43.0


From 74f9123b4bb5709e5673fd6015ba74e0307b5f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 25/35] fix: adding tokens needs no model entry, empty
 vocabularies work, ids are unique

Added tokens missing from the model were never matched, an empty vocabulary
or no model at all dereferenced null or end(), ids of sparse vocabularies were
handed out twice, and the constructor's own list was grown while iterated.
---
 src/added_vocabulary.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..7fc48b5 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -52,8 +52,11 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
   return std::nullopt;
 }
 
-int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
+int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                                 Model* model, Normalizer* normalizer) {
+  // a copy, as new_tokens may be the added_tokens that grow below
+  const std::vector<AddedToken> tokens = new_tokens;
+  int vocab_size = model != nullptr ? model->get_vocab_size() : 0;
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
@@ -73,7 +76,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
     auto it = added_tokens_map.find(token.content);
     if (it != added_tokens_map.end()) {
       new_id = it->second;
-    } else if (model->token_to_id(token.content).has_value()) {
+    } else if (model != nullptr &&
+               model->token_to_id(token.content).has_value()) {
       new_id = model->token_to_id(token.content).value();
     } else {
       auto max_val_token =
@@ -82,12 +86,14 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
-           max_val_token->second >= model->get_vocab_size())) {
+      if (max_val_token != added_tokens_map.end() &&
+          (vocab_size == 0 || max_val_token->second >= vocab_size)) {
         new_id = max_val_token->second + 1;
       } else {
-        new_id = model->get_vocab_size();
+        new_id = vocab_size;
+      }
+      while (model != nullptr && model->id_to_token(new_id).has_value()) {
+        new_id++;
       }
     }
     added_tokens_map[token.content] = new_id;
@@ -107,22 +113,22 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
                                            Normalizer* normalizer) {
   std::vector<std::pair<AddedToken, int>> normalized, non_normalized;
   for (auto token : special_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto id = added_tokens_map.find(token.content);
+    if (id != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, id->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, id->second});
       }
     }
   }
   for (auto token : added_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto id = added_tokens_map.find(token.content);
+    if (id != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, id->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, id->second});
       }
     }
   }
-- 
2.43.0


From 99befad87756f4b2590f02fa5e9d8cf67dc2606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 26/35] fix: tokens matched in normalized text are normalized
 themselves

---
 src/added_vocabulary.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 7fc48b5..fed5246 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -137,7 +137,12 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   std::vector<std::string> normalized_tokens;
   std::vector<int> normalized_ids;
   for (auto element : normalized) {
-    normalized_tokens.push_back(element.first.content);
+    NormalizedString content =
+        NormalizedString(convert_from_string(element.first.content));
+    if (normalizer != nullptr) {
+      content = normalizer->normalize(content);
+    }
+    normalized_tokens.push_back(convert_to_string(content.normalized));
     normalized_ids.push_back(element.second);
   }
   split_normalized_trie = {normalized_tokens, normalized_ids};
-- 
2.43.0


From d0fcc533e111a4175240dcac56edde4dec0d097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 27/35] fix: added tokens are found anywhere, longest first, in
 characters

Only tokens between ASCII spaces were found, positions were a mix of UTF-16
units and bytes, and word characters and whitespace were ASCII only.
---
 src/added_vocabulary.cpp | 97 ++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 49 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index fed5246..0c624aa 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -155,30 +155,36 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
 }
 
-bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
+bool is_word_char(wchar_t c) {
+  return u_isUAlphabetic(static_cast<UChar32>(c)) ||
+         (U_GET_GC_MASK(static_cast<UChar32>(c)) &
+          (U_GC_M_MASK | U_GC_ND_MASK | U_GC_PC_MASK)) != 0;
 }
 
-bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
+bool ends_with_word(const std::wstring& sentence) {
+  return !sentence.empty() && is_word_char(sentence.back());
 }
 
-size_t space_leftmost_at_end(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
-    return match.position();
-  } else {
-    return sentence.length();
+bool starts_with_word(const std::wstring& sentence) {
+  return !sentence.empty() && is_word_char(sentence.front());
+}
+
+size_t space_leftmost_at_end(const std::wstring& sentence) {
+  size_t length = sentence.length();
+  while (length > 0 &&
+         u_isUWhiteSpace(static_cast<UChar32>(sentence[length - 1]))) {
+    length--;
   }
+  return length;
 }
 
-size_t space_rightmost_at_start(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
-    return match.length();
-  } else {
-    return 0;
+size_t space_rightmost_at_start(const std::wstring& sentence) {
+  size_t length = 0;
+  while (length < sentence.length() &&
+         u_isUWhiteSpace(static_cast<UChar32>(sentence[length]))) {
+    length++;
   }
+  return length;
 }
 
 std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
@@ -186,37 +192,30 @@ AddedVocabulary::find_matches(
     std::string sentence,
     std::pair<std::vector<std::string>, std::vector<int>> split_re) {
   // TODO(omkar): update to find matches from trie
-  std::vector<std::tuple<int, int, int>> matches;
-  std::unordered_map<std::string, int> word_ids;
-  for (int i = 0; i < split_re.first.size(); ++i) {
-    word_ids[split_re.first[i]] = split_re.second[i];
-  }
-  icu::UnicodeString unicode_sentence = icu::UnicodeString::fromUTF8(sentence);
-  int i = 0, cur = 0;
-  while (i < unicode_sentence.length()) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-      cur = i;
-    }
-    if (unicode_sentence[i] == ' ') {
-      cur = i + 1;
-    }
-    i++;
-  }
-  if (i != cur) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-    }
+  std::wstring text = convert_from_string(sentence);
+  std::vector<std::wstring> words;
+  for (const std::string& word : split_re.first) {
+    words.push_back(convert_from_string(word));
   }
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> result;
   int start_offset = 0;
-  for (auto match : matches) {
-    int start = std::get<0>(match), stop = std::get<1>(match),
-        id = std::get<2>(match);
+  int total_len = text.length();
+  int cur = 0;
+  while (cur < total_len) {
+    // the longest token that starts here
+    int start = cur, stop = cur, id = 0;
+    for (size_t i = 0; i < words.size(); ++i) {
+      if (words[i].length() > stop - start &&
+          text.compare(start, words[i].length(), words[i]) == 0) {
+        stop = start + words[i].length();
+        id = split_re.second[i];
+      }
+    }
+    if (stop == start) {
+      cur++;
+      continue;
+    }
+    cur = stop;
     AddedToken added_token = added_tokens_map_r[id];
     if (encode_special_tokens &&
         special_tokens_set.count(added_token.content) > 0) {
@@ -224,27 +223,27 @@ AddedVocabulary::find_matches(
     }
     if (added_token.single_word) {
       bool start_space =
-          start == 0 || !ends_with_word(sentence.substr(0, start));
+          start == 0 || !ends_with_word(text.substr(0, start));
       bool stop_space =
-          stop == sentence.length() || !starts_with_word(sentence.substr(stop));
+          stop == total_len || !starts_with_word(text.substr(stop));
       if (!stop_space || !start_space) {
         continue;
       }
     }
     if (added_token.lstrip) {
-      int new_start = space_leftmost_at_end(sentence.substr(0, start));
+      int new_start = space_leftmost_at_end(text.substr(0, start));
       start = std::max(new_start, start_offset);
     }
     if (added_token.rstrip) {
-      stop += space_rightmost_at_start(sentence.substr(stop));
+      stop += space_rightmost_at_start(text.substr(stop));
     }
     if (start_offset < start) {
       result.push_back({std::nullopt, {start_offset, start}});
     }
     result.push_back({id, {start, stop}});
     start_offset = stop;
+    cur = stop;
   }
-  int total_len = unicode_sentence.length();
   if (start_offset != total_len) {
     result.push_back({std::nullopt, {start_offset, total_len}});
   }
-- 
2.43.0


From c01d32c7a3aeda43b62d8bb62ec6651bb0293a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 28/35] fix: added token offsets count characters, text
 normalized away is gone

---
 src/added_vocabulary.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 0c624aa..619f811 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -270,7 +270,8 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
     if (match.first.has_value()) {
       Split new_split = Split(value, match.second);
       new_split.tokens = {
-          Token(match.first.value(), value, {0, value.length()})};
+          Token(match.first.value(), value,
+                {0, match.second.second - match.second.first})};
       non_normalized_splits.push_back(new_split);
     } else {
       non_normalized_splits.push_back(Split(value, match.second));
@@ -286,9 +287,10 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
     if (original_split.tokens.size() > 0) {
       Split new_split = original_split;
       new_split.offsets = {ending_idx,
-                           ending_idx + new_split.normalized.length()};
+                           ending_idx + original_split.offsets.second -
+                               original_split.offsets.first};
       normalized_splits.push_back(new_split);
-      ending_idx += new_split.normalized.length();
+      ending_idx = new_split.offsets.second;
     } else {
       NormalizedString split_normalized =
           NormalizedString(convert_from_string(original_split.normalized));
@@ -312,7 +314,8 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
               Split(value, {match.second.first + new_split_offset.first,
                             match.second.second + new_split_offset.first});
           new_split.tokens = {
-              Token(match.first.value(), value, {0, value.length()})};
+              Token(match.first.value(), value,
+                    {0, match.second.second - match.second.first})};
           normalized_splits.push_back(new_split);
         } else {
           normalized_splits.push_back(
@@ -323,9 +326,7 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
       ending_idx += split_normalized.normalized.length();
     }
   }
-  if (normalized_splits.size() > 0) {
-    pre_tokenized.splits = normalized_splits;
-  }
+  pre_tokenized.splits = normalized_splits;
 
   return pre_tokenized;
 }
-- 
2.43.0


From 959d11d8097a5fce7349831eef41599d598897b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 29/35] fix: decoding works without added tokens, model or
 decoder and skips unknown ids

---
 src/tokenizer.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..bdc1b63 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -109,17 +109,25 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
   std::vector<std::string> tokens;
   for (int id : ids) {
     std::string token = "";
-    std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
+    std::optional<std::string> av_token;
+    if (added_vocabulary != nullptr) {
+      av_token = added_vocabulary->id_to_token(id);
+    }
+    if (!av_token.has_value() && model != nullptr) {
+      av_token = model->id_to_token(id);
+    }
     if (!av_token.has_value()) {
-      token = model->id_to_token(id).value();
-    } else {
-      token = av_token.value();
+      continue;  // no token has this id
     }
-    if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
+    token = av_token.value();
+    if (!skip_special_tokens || added_vocabulary == nullptr ||
+        !added_vocabulary->is_special_token(token)) {
       tokens.push_back(token);
     }
   }
-  tokens = decoder->decode_chain(tokens);
+  if (decoder != nullptr) {
+    tokens = decoder->decode_chain(tokens);
+  }
   return std::accumulate(tokens.begin(), tokens.end(), std::string{});
 }
 
-- 
2.43.0


From a723b1f8f6ae5cc02d3d243b97593926e1a5439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 30/35] fix: a configuration without added tokens is still
 normalized and can be extended

---
 src/tokenizer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index bdc1b63..3d414d9 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -96,6 +96,9 @@ Encoding Tokenizer::encode(const std::wstring& sequence,
   if (added_vocabulary != nullptr) {
     pre_tokenized =
         added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
+  } else if (normalizer != nullptr) {
+    pre_tokenized = PreTokenizedString(
+        normalizer->normalize(NormalizedString(sequence)));
   }
   if (pre_tokenizer != nullptr) {
     pre_tokenized = pre_tokenizer->pre_tokenize(pre_tokenized);
@@ -132,10 +135,18 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
 }
 
 int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
+  }
   return added_vocabulary->add_tokens(tokens, model.get(), normalizer.get());
 }
 
 int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
+  }
   return added_vocabulary->add_special_tokens(tokens, model.get(),
                                               normalizer.get());
 }
-- 
2.43.0


From aeb5e9680c0e9884473c76a09cfb1df3bd3385bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 31/35] fix: token offsets refer to the characters of the
 original text

Offsets were added to those of the first character of the word, which is wrong
once normalization changes a length inside it or words are made of bytes, and
read out of bounds for empty text.
---
 src/tokenizer.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 3d414d9..bd4ceb8 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -151,26 +151,39 @@ int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
                                               normalizer.get());
 }
 
+// The part of the original text that a part of a split stands for. The
+// characters of a split are those of the normalized text, or its bytes when
+// the byte-level pre-tokenizer has replaced them.
+std::pair<int, int> original_offsets(const NormalizedString& normalized,
+                                     const Split& split,
+                                     std::pair<int, int> offsets) {
+  if (split.offsets.first >= split.offsets.second ||
+      offsets.first >= offsets.second) {
+    return {0, 0};
+  }
+  int first = normalized.offset_ranges[split.offsets.first].first;
+  int start = first + offsets.first, end = first + offsets.second;
+  if (convert_from_string(split.normalized).length() ==
+      split.offsets.second - split.offsets.first) {
+    std::pair<int, int> last =
+        normalized
+            .offset_ranges[split.offsets.first + offsets.second - 1];
+    start = normalized.offset_ranges[split.offsets.first + offsets.first].first;
+    end = last.first + last.second;
+  }
+  return {normalized.offsets[start].first, normalized.offsets[end - 1].second};
+}
+
 Encoding into_encoding(PreTokenizedString pre_tokenized,
                        std::optional<int> word_idx, int type_id) {
   Encoding encoding;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
     Split split = pre_tokenized.splits[idx];
-    std::pair<int, int> transformed_split_offset = {
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .first,
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .second};
     for (Token token : split.tokens) {
       encoding.ids.push_back(token.id);
       encoding.tokens.push_back(token.value);
       encoding.offsets.push_back(
-          {transformed_split_offset.first + token.offsets.first,
-           transformed_split_offset.first + token.offsets.second});
+          original_offsets(pre_tokenized.normalized, split, token.offsets));
       encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
       encoding.type_ids.push_back(type_id);
       encoding.special_tokens_mask.push_back(0);
-- 
2.43.0


From 5de8603a005ba7315ac7fb4e437d4a03ca7ded2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 32/35] fix: vocabulary keys with JSON escapes mean their
 unescaped text

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 7969f3f..1474843 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -289,7 +289,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   std::unordered_map<std::string, int> result;
   for (auto element : json_object) {
     result.insert(
-        {std::string(static_cast<std::string_view>(element.escaped_key())),
+        {std::string(static_cast<std::string_view>(element.unescaped_key())),
          static_cast<int>(element.value().get_int64())});
   }
   return result;
-- 
2.43.0


From e578b62be8ee2f772c0eb2a6ecdcb8a51d3d7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 33/35] fix: padding to a negative size adds nothing instead of
 throwing

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1474843..469eb2a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -201,7 +201,7 @@ Encoding pad(Encoding encoding, int target_length, int pad_id, int pad_type_id,
                    return pad(overflow_encoding, target_length, pad_id,
                               pad_type_id, pad_token, direction);
                  });
-  if (encoding.ids.size() >= target_length) {
+  if (static_cast<int>(encoding.ids.size()) >= target_length) {
     return encoding;
   }
   int pad_length = target_length - encoding.ids.size();
-- 
2.43.0


From 64540aa46ca448c4a4bf8c3936644ce8ef4ae964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 34/35] fix: models keep the added tokens that were extracted

They tokenized the text of an added token again, which lost its id unless the
vocabulary has that very text.
---
 src/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model.cpp b/src/model.cpp
index 687d5f4..5fed20d 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -143,6 +143,9 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
 
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;  // an added token
+    }
     icu::UnicodeString unicode_sequence =
         icu::UnicodeString::fromUTF8(split.normalized);
     int char_len = unicode_sequence.countChar32();
@@ -454,6 +457,9 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
 
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;  // an added token
+    }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
       split.tokens = tokenize_with_cache(sequence);
-- 
2.43.0


From 3bf54066114c7cb6b3557995c71e8cd5bdb6cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:08 +0000
Subject: [PATCH 35/35] fix: guard the word cache of BPE against concurrent
 tokenizing

tokenize() is const, but looked up and inserted into a shared map; two
threads encoding with one tokenizer raced on it.
---
 include/tokenizers/model.h |  2 ++
 src/model.cpp              | 14 ++++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 51d977f..0eb11fe 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -114,6 +115,7 @@ class BPE : public Model {
 
  private:
   mutable std::unordered_map<std::string, Word> cache;
+  std::shared_ptr<std::mutex> cache_mutex;  // a pointer, as models are moved
   Word merge_word(std::string sequence) const;
   std::vector<Token> word_to_tokens(const Word &word,
                                     const std::string &sequence) const;
diff --git a/src/model.cpp b/src/model.cpp
index 5fed20d..7b9c749 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -7,6 +7,7 @@
 #include <iomanip>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <queue>
 #include <random>
@@ -319,7 +320,8 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
       fuse_unk(fuse_unk),
       byte_fallback(byte_fallback),
       ignore_merges(ignore_merges),
-      cache({}) {
+      cache({}),
+      cache_mutex(std::make_shared<std::mutex>()) {
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
     std::istringstream iss(merges_list[i]);
@@ -445,12 +447,16 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
       return {Token(it->second, sequence, {0, char_len})};
     }
   }
-  auto it = cache.find(sequence);
-  if (it != cache.end()) {
-    return word_to_tokens(it->second, sequence);
+  {
+    std::lock_guard<std::mutex> lock(*cache_mutex);
+    auto it = cache.find(sequence);
+    if (it != cache.end()) {
+      return word_to_tokens(it->second, sequence);
+    }
   }
   auto word = merge_word(sequence);
   auto result = word_to_tokens(word, sequence);
+  std::lock_guard<std::mutex> lock(*cache_mutex);
   cache.insert({sequence, word});
   return result;
 }
-- 
2.43.0

