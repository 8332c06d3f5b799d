From 992676f7132238e2b5d7c7a4b1d2b4bc084f1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:28 +0000
Subject: [PATCH 01/30] fix: convert doubled upper case consonants in Romaji to
 a small tsu

---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 063af05..b221ed7 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -339,7 +339,7 @@ void Converter::processRomaji(String& letters, String& result) const {
     // unconverted since no valid romaji can be longer than 3 letters
     result += lower[0] == 'n' ? getN()
               : lower[0] == lower[1] || lower[0] == 't' && lower[1] == 'c'
-                  ? repeatingConsonants().contains(letters[0])
+                  ? repeatingConsonants().contains(lower[0])
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-- 
2.43.0


From 374cabf603cc6768c46d1a145b0196a98fd04cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:28 +0000
Subject: [PATCH 02/30] fix: ignore case of letters with a macron when
 converting from Romaji

---
 libs/kana/src/Converter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index b221ed7..7693cac 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -353,7 +353,9 @@ bool Converter::processRomajiMacron(
     const String& letter, String& letters, String& result) const {
   static const std::map<String, std::pair<char, String>> Macrons{
       {"ā", {'a', "あ"}}, {"ī", {'i', "い"}}, // GCOV_EXCL_LINE
-      {"ū", {'u', "う"}}, {"ē", {'e', "え"}}, {"ō", {'o', "お"}}};
+      {"ū", {'u', "う"}}, {"ē", {'e', "え"}}, {"ō", {'o', "お"}},
+      {"Ā", {'a', "あ"}}, {"Ī", {'i', "い"}}, {"Ū", {'u', "う"}},
+      {"Ē", {'e', "え"}}, {"Ō", {'o', "お"}}};
 
   if (const auto i{Macrons.find(letter)}; i != Macrons.end()) {
     processRomaji(letters += i->second.first, result);
-- 
2.43.0


From a78397e38796ba1703867e34303ba48a2f126765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:28 +0000
Subject: [PATCH 03/30] fix: keep unfinished Romaji letters before the text
 that follows them

---
 libs/kana/include/kt_kana/Converter.h |  1 +
 libs/kana/src/Converter.cpp           | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/kana/include/kt_kana/Converter.h b/libs/kana/include/kt_kana/Converter.h
index f325ab8..15cefae 100644
--- a/libs/kana/include/kt_kana/Converter.h
+++ b/libs/kana/include/kt_kana/Converter.h
@@ -190,6 +190,7 @@ private:
 
   /// helper functions used by toKana() @{
   void processRomaji(String& romajiLetters, String& result) const;
+  void flushRomaji(String& romajiLetters, String& result) const;
   [[nodiscard]] bool processRomajiMacron(
       const String& letter, String& letters, String& result) const; ///@}
 
diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 7693cac..b6fbc46 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -297,7 +297,7 @@ String Converter::processKanaMacron(
 String Converter::toKana(const String& romajiInput) const {
   String result, letters, letter;
   for (Utf8Char s{romajiInput}; s.next(letter, false);)
-    if (isSingleByte(letter)) {
+    if (isSingleByte(letter) && std::isalpha(letter[0])) {
       if (!isN(letter)) {
         letters += letter;
         processRomaji(letters, result);
@@ -312,9 +312,14 @@ String Converter::toKana(const String& romajiInput) const {
         letters = letter; // 'n' starts a new group
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
-      processRomaji(letters, result);
+      flushRomaji(letters, result); // keep unfinished letters before 'letter'
       result += letter;
     }
+  flushRomaji(letters, result);
+  return result;
+}
+
+void Converter::flushRomaji(String& letters, String& result) const {
   while (!letters.empty())
     if (isN(letters)) {
       result += getN(); // normal case for a word ending in 'n'
@@ -324,7 +329,6 @@ String Converter::toKana(const String& romajiInput) const {
       letters = letters.substr(1);
       processRomaji(letters, result);
     }
-  return result;
 }
 
 void Converter::processRomaji(String& letters, String& result) const {
-- 
2.43.0


From d3e5bfd0652983992dda4e0b081b32c6b10ca9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:36 +0000
Subject: [PATCH 04/30] fix: convert a small letter that follows a small tsu
 and a normal Kana

---
 libs/kana/src/Converter.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index b6fbc46..a4b8841 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -261,12 +261,13 @@ String Converter::processKana(const String& kanaGroup, CharType source,
                    ? processKanaMacron(prolong, prevKana, i->second, true)
                    : processKana(firstKana, source, prevKana) +
                          processKanaMacron(prolong, prevKana, i->second);
-      // return second part unconverted - this should be impossible by design
-      // since only Kana that exists in sourceMap are added to 'kanaGroup'
-      // XCOV_EXCL_START
-      return processKana(firstKana, source, prevKana) +
-             kanaGroup.substr(Kana::OneKanaSize);
-      // XCOV_EXCL_STOP
+      // small tsu and a normal Kana followed by a small letter that doesn't form
+      // a digraph with it (like 'ったぁ'), so process the small letter by itself
+      const auto lastPos{kanaGroup.size() - Kana::OneKanaSize};
+      const auto start{
+          processKana(kanaGroup.substr(0, lastPos), source, prevKana)};
+      return start +
+             processKana(kanaGroup.substr(lastPos), source, prevKana, prolong);
     }
   } else if (prolong)
     // a 'prolong mark' at the start of a group isn't valid so in this case just
-- 
2.43.0


From 644c7e9ef3664d14574d1aa6eb5815eb8cc449a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:04 +0000
Subject: [PATCH 05/30] fix: keep the case of an unconverted 'n' that follows
 another 'n'

---
 libs/kana/src/Converter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index a4b8841..367d106 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -304,10 +304,11 @@ String Converter::toKana(const String& romajiInput) const {
         processRomaji(letters, result);
       } else if (letters.empty())
         letters += letter;
-      else if (isN(letters))
-        // got two 'n's in a row so output one, but don't clear letters
+      else if (isN(letters)) {
+        // got two 'n's in a row so output one, but keep the second
         result += getN();
-      else {
+        letters = letter;
+      } else {
         // error: partial romaji followed by n, output unconverted partial group
         result += letters;
         letters = letter; // 'n' starts a new group
-- 
2.43.0


From 2b8fb649174114cc4fd033a9f0e230ac31a85207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:50 +0000
Subject: [PATCH 06/30] fix: repeat the last Kana (not the one before it) for
 an iteration mark

---
 libs/kana/src/Converter.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 367d106..e8887ac 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -255,12 +255,15 @@ String Converter::processKana(const String& kanaGroup, CharType source,
     if (kanaGroup.size() > Kana::OneKanaSize) {
       const auto firstKana{kanaGroup.substr(0, Kana::OneKanaSize)};
       if (const auto i{sourceMap.find(kanaGroup.substr(Kana::OneKanaSize))};
-          i != sourceMap.end())
-        return romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
-                       repeatingConsonants().contains(i->second->romaji()[0])
-                   ? processKanaMacron(prolong, prevKana, i->second, true)
-                   : processKana(firstKana, source, prevKana) +
-                         processKanaMacron(prolong, prevKana, i->second);
+          i != sourceMap.end()) {
+        if (romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
+            repeatingConsonants().contains(i->second->romaji()[0]))
+          return processKanaMacron(prolong, prevKana, i->second, true);
+        // process in order since the last call must be the one to set prevKana
+        const auto start{processKana(firstKana, source, prevKana)};
+        prevKana = nullptr;
+        return start + processKanaMacron(prolong, prevKana, i->second);
+      }
       // small tsu and a normal Kana followed by a small letter that doesn't form
       // a digraph with it (like 'ったぁ'), so process the small letter by itself
       const auto lastPos{kanaGroup.size() - Kana::OneKanaSize};
-- 
2.43.0


From aa21bbda415ae42c8dbdd435868675eda56e8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:57 +0000
Subject: [PATCH 07/30] fix: separate multiple strings by spaces when
 converting to Romaji

---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 5e77ed3..07a75ac 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -227,7 +227,7 @@ void KanaConvert::start(const List& strings) {
       if (space)
         _out << (_converter.target() == CharType::Romaji ? " " : "　");
       else
-        space = _converter.target() != CharType::Romaji &&
+        space = _converter.target() == CharType::Romaji ||
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-- 
2.43.0


From 746f2adde07f1d8da9209f176435edb4eda4e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:57 +0000
Subject: [PATCH 08/30] fix: suppress newline when '-n' option is used with
 strings

---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 07a75ac..75d5551 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -231,7 +231,7 @@ void KanaConvert::start(const List& strings) {
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-    _out << '\n';
+    if (!_suppressNewLine) _out << '\n';
   }
 }
 
-- 
2.43.0


From f0d6a0e499b17e62bb9ef6d9c51c67d234f595aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:56 +0000
Subject: [PATCH 09/30] fix: stop prompting for a choice when there is no more
 input

---
 libs/kana/src/Choice.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libs/kana/src/Choice.cpp b/libs/kana/src/Choice.cpp
index 3c0d604..37fdc35 100644
--- a/libs/kana/src/Choice.cpp
+++ b/libs/kana/src/Choice.cpp
@@ -8,7 +8,8 @@ namespace kanji_tools {
 
 namespace {
 
-const String AlreadyInChoices{"' already in choices"};
+const String AlreadyInChoices{"' already in choices"},
+    EndOfInput{"no more input to get a choice from"};
 
 } // namespace
 
@@ -53,9 +54,12 @@ char Choice::get(const String& msg, bool useQuit, const Choices& choices,
   do {
     _out << prompt;
     _out.flush();
-    if (_in)
-      std::getline(*_in, line);
-    else {
+    if (_in) {
+      if (!std::getline(*_in, line)) {
+        if (!def) error(EndOfInput);
+        line.clear();
+      }
+    } else {
       // XCOV_EXCL_START - code only used in interactive mode
       if (const auto choice{getOneChar()}; choice == '\n')
         line.clear();
@@ -131,12 +135,14 @@ char Choice::getOneChar() {
     perror("tcsetattr() - turning on raw mode");
   // read a single char
   char result{};
-  if (read(0, &result, 1) < 0) perror("read()");
+  const auto count{read(0, &result, 1)};
+  if (count < 0) perror("read()");
   // turn raw mode off
   settings.c_lflag |= Icanon;
   settings.c_lflag |= Echo;
   if (tcsetattr(0, TCSADRAIN, &settings) < 0)
     perror("tcsetattr() - turning off raw mode");
+  if (count < 1) error(EndOfInput);
   return result;
 }
 // XCOV_EXCL_STOP
-- 
2.43.0


From b6d72169340978e3c613ee53f92ea8ccfda3e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:23 +0000
Subject: [PATCH 10/30] fix: reject an extra empty final column in a column
 file

---
 libs/utils/src/ColumnFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 141df70..7f83535 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -58,6 +58,7 @@ void ColumnFile::processHeaderRow(const String& row, ColNames& colNames) {
     foundCols.insert(header);
     colNames.erase(i);
   }
+  if (row.ends_with(_delimiter)) error("unrecognized header ''");
 }
 
 void ColumnFile::verifyHeaderColumns(const ColNames& colNames) const {
@@ -90,6 +91,8 @@ bool ColumnFile::nextRow() {
       _rowValues[_rowValues.size() - 1] = emptyString();
     else if (i < _rowValues.size())
       error("not enough columns");
+    else if (line.ends_with(_delimiter))
+      error("too many columns"); // extra final column was empty
     return true;
   }
   return false;
-- 
2.43.0


From 386e9d4ad04393c448d67d3df9a9d8a7db1f1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:27 +0000
Subject: [PATCH 11/30] fix: reject malformed numbers in a column file

---
 libs/utils/src/ColumnFile.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 7f83535..2792d8b 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -121,11 +121,15 @@ ColumnFile::OptU64 ColumnFile::getOptU64(const Column& c, uint64_t max) const {
 
 uint64_t ColumnFile::processU64(
     const String& s, const Column& column, uint64_t max) const {
+  static const String ConvertError{"failed to convert to unsigned number"};
+  // 'stoul' allows leading spaces, a sign and anything following the number
+  if (!std::all_of(s.begin(), s.end(), [](char c) { return c >= '0' && c <= '9'; }))
+    error(ConvertError, column, s);
   uint64_t i{};
   try {
     i = std::stoul(s);
   } catch (...) {
-    error("failed to convert to unsigned number", column, s);
+    error(ConvertError, column, s);
   }
   if (max && max < i)
     error("exceeded max value of " + std::to_string(max), column, s);
-- 
2.43.0


From f73c17ba0d96919c5344aaa1e07c7d5ff7ed4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:09 +0000
Subject: [PATCH 12/30] fix: report enum indexes and iterator moves that are
 out of range by 256 or more

---
 libs/utils/include/kt_utils/EnumContainer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/utils/include/kt_utils/EnumContainer.h b/libs/utils/include/kt_utils/EnumContainer.h
index 9847a8e..6e20cfe 100644
--- a/libs/utils/include/kt_utils/EnumContainer.h
+++ b/libs/utils/include/kt_utils/EnumContainer.h
@@ -5,6 +5,7 @@
 
 #include <compare>
 #include <concepts>
+#include <cstdint>
 
 namespace kanji_tools { /// \utils_group{EnumContainer}
 /// base classes used by EnumMap and EnumList
@@ -144,7 +145,7 @@ template <scoped_enum T, Enum::Size N> template <typename I>
 requires std::integral<I> || std::same_as<T, I>
 auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
   const auto x{static_cast<Size>(i)};
-  if (x >= N) {
+  if (x >= N || static_cast<std::intmax_t>(i) != x) {
     String msg{name};
     if constexpr (std::is_same_v<I, T>)
       msg += "enum value " + std::to_string(x);
@@ -197,12 +198,12 @@ auto EnumContainer<T, N>::Iterator<Derived>::operator[](
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator+=(difference_type i) {
-  if (difference_type curIndex{index()}; (curIndex += i) < 0)
+  if (const difference_type curIndex{index()}; i < -curIndex)
     rangeError(BadBegin);
-  else if (const auto j{static_cast<Size>(curIndex)}; j > N)
+  else if (i > N - curIndex)
     rangeError(BadEnd);
   else
-    index() = j;
+    index() = static_cast<Size>(curIndex + i);
   return derived();
 }
 
-- 
2.43.0


From db4636bd88f795140785e1da3d4113252c57a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:11 +0000
Subject: [PATCH 13/30] fix: find Kanji by frequency when the last bucket has
 more entries

---
 libs/kanji/src/KanjiData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 5f35259..37a5006 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -110,8 +110,8 @@ KanjiPtr KanjiData::findByFrequency(Kanji::Frequency freq) const {
   if (!freq || freq >= _maxFrequency) return {};
   auto bucket{--freq};
   bucket /= FrequencyEntries;
-  if (bucket == FrequencyBuckets)
-    --bucket; // last bucket contains FrequencyEntries + 1
+  if (bucket >= FrequencyBuckets)
+    bucket = FrequencyBuckets - 1; // last bucket contains remaining entries
   return _frequencies[bucket][freq - bucket * FrequencyEntries];
 }
 
-- 
2.43.0


From 2b887fa03ce8db7e55800f7bd3cbfd46ec916c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:11 +0000
Subject: [PATCH 14/30] fix: report an error for a Kanji in a list that its
 type does not allow

---
 libs/kanji/src/KanjiData.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 37a5006..5aa06bd 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -250,17 +250,22 @@ bool KanjiData::checkInsert(List& s, const KanjiPtr& kanji) {
 }
 
 void KanjiData::addToKyus(const KanjiPtr& kanji) {
-  assert(kanji->hasKyu());
+  if (!kanji->hasKyu())
+    usage("'" + kanji->name() + "' is in a kyu list, but doesn't have a kyu");
   _kyus[kanji->kyu()].emplace_back(kanji);
 }
 
 void KanjiData::addToLevels(const KanjiPtr& kanji) {
-  assert(kanji->hasLevel());
+  if (!kanji->hasLevel())
+    usage(
+        "'" + kanji->name() + "' is in a level list, but can't have a level");
   _levels[kanji->level()].emplace_back(kanji);
 }
 
 void KanjiData::addToFrequencies(const KanjiPtr& kanji) {
-  assert(kanji->frequency());
+  if (!kanji->frequency())
+    usage("'" + kanji->name() +
+          "' is in the frequency list, but can't have a frequency");
   const auto bucket{(kanji->frequency() - 1U) / FrequencyEntries};
   _frequencies[bucket < FrequencyBuckets ? bucket : FrequencyBuckets - 1]
       .emplace_back(kanji);
-- 
2.43.0


From a9eba41cae092d3a2e73010a005b27f1fd525e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:12 +0000
Subject: [PATCH 15/30] fix: report an error for a Kanji name that is not a
 single Kanji

---
 libs/kanji/src/Kanji.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/kanji/src/Kanji.cpp b/libs/kanji/src/Kanji.cpp
index 4b695b1..da0fc13 100644
--- a/libs/kanji/src/Kanji.cpp
+++ b/libs/kanji/src/Kanji.cpp
@@ -180,7 +180,8 @@ Strokes Kanji::CtorParams::strokes() const {
 // Kanji::KanjiName
 
 Kanji::KanjiName::KanjiName(const String& name) : _name{name} {
-  assert(Utf8Char::size(_name) == 1);
+  if (Utf8Char::size(_name) != 1)
+    throw DomainError{"name '" + _name + "' isn't a single Kanji"};
 }
 
 bool Kanji::KanjiName::isVariant() const {
-- 
2.43.0


From 874da3a66b51d081b3980effa326d5c453b7e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:03 +0000
Subject: [PATCH 16/30] fix: list a Jukugo once for a Kanji that it contains
 more than once

---
 libs/quiz/src/JukugoData.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index 7d13b96..ac9dfbb 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -3,6 +3,7 @@
 #include <kt_utils/UnicodeBlock.h>
 
 #include <fstream>
+#include <set>
 #include <sstream>
 
 namespace kanji_tools {
@@ -114,8 +115,10 @@ void JukugoData::createJukugo(
   if (const auto i{_uniqueJukugo.find(key)}; i == _uniqueJukugo.end()) {
     const auto jukugo{std::make_shared<Jukugo>(name, reading, grade)};
     Utf8Char nameChars{name};
+    std::set<String> found; // a Kanji can occur more than once in 'name'
     for (String c; nameChars.next(c);)
-      if (isKanji(c)) _kanjiToJukugo[c].emplace_back(jukugo);
+      if (isKanji(c) && found.emplace(c).second)
+        _kanjiToJukugo[c].emplace_back(jukugo);
     _uniqueJukugo.emplace(key, jukugo);
   } else if (i->second->grade() != grade)
     throw DomainError("jukugo '" + name + "' found in more than one file");
-- 
2.43.0


From 20e52a3e715e18db7ce1707acffde1030ab9fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:03 +0000
Subject: [PATCH 17/30] fix: report an error for a Jukugo with a close bracket
 before the open one

---
 libs/quiz/src/JukugoData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index ac9dfbb..5c531da 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -102,6 +102,7 @@ void JukugoData::createJukugo(
     const String& line, KanjiGrades grade, bool onePerLine) {
   const auto open{findOpenBracket(line, onePerLine)},
       close{findCloseBracket(line, onePerLine)};
+  if (close < open) error("close bracket should follow open bracket");
   const auto name{line.substr(0, onePerLine ? open - 1 : open)},
       reading{line.substr(open + 1, close - open - 1)};
   // There are some duplicates in data files which makes sense for
-- 
2.43.0


From 6580572f620f60d24bf1081bf20d21f79dc49316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:15 +0000
Subject: [PATCH 18/30] fix: count invalid UTF-8 as errors (not as
 replacements) when a regex is used

---
 libs/stats/include/kt_stats/Utf8Count.h |  4 ++++
 libs/stats/src/Utf8Count.cpp            | 24 +++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/libs/stats/include/kt_stats/Utf8Count.h b/libs/stats/include/kt_stats/Utf8Count.h
index 4c22340..58318b2 100644
--- a/libs/stats/include/kt_stats/Utf8Count.h
+++ b/libs/stats/include/kt_stats/Utf8Count.h
@@ -80,6 +80,10 @@ public:
   [[nodiscard]] auto debug() const { return _debug; }
 
 private:
+  /// return `s` with the regex passed to the ctor applied to each part that has
+  /// no invalid UTF-8 (which is kept as is)
+  [[nodiscard]] String replace(const String& s) const;
+
   /// return true if `line` has an open bracket without a closing bracket when
   /// searching back from the end
   [[nodiscard]] static bool hasUnclosedBrackets(const String& line);
diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index 1bdaa28..fc7243e 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -3,6 +3,7 @@
 #include <kt_utils/BlockRange.h>
 #include <kt_utils/Exception.h>
 
+#include <bit>
 #include <fstream>
 
 namespace kanji_tools {
@@ -28,7 +29,7 @@ Utf8Count::Utf8Count(
 size_t Utf8Count::add(const String& s, const OptString& tag) {
   auto n{s};
   if (_find) {
-    n = toUtf8(std::regex_replace(fromUtf8ToWstring(s), *_find, _replace));
+    n = replace(s);
     if (n != s) {
       ++_replacements;
       if (tag && tag != _lastReplaceTag) {
@@ -98,6 +99,27 @@ size_t Utf8Count::doAddFile(
   return added;
 }
 
+String Utf8Count::replace(const String& s) const {
+  String result, valid;
+  const auto flush{[this, &result, &valid] {
+    result += toUtf8(
+        std::regex_replace(fromUtf8ToWstring(valid), *_find, _replace));
+    valid.clear();
+  }};
+  for (size_t i{}; i < s.size();)
+    if (validateMBUtf8(s.c_str() + i) == MBUtf8Result::NotValid) {
+      flush();
+      result += s[i++]; // keep invalid bytes, they're counted as errors later
+    } else {
+      const auto size{static_cast<size_t>(
+          std::max(std::countl_one(static_cast<uint8_t>(s[i])), 1))};
+      valid += s.substr(i, size);
+      i += size;
+    }
+  flush();
+  return result;
+}
+
 bool Utf8Count::hasUnclosedBrackets(const String& line) {
   if (const auto open{line.rfind(OpenWideBracket)}; open != String::npos) {
     const auto close{line.rfind(CloseWideBracket)};
-- 
2.43.0


From ab58eff6588c58c6712085140ee8a7b9bd546ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:47 +0000
Subject: [PATCH 19/30] fix: read files that the user can't write to

---
 apps/formatMain.cpp                      | 2 +-
 libs/stats/src/Utf8Count.cpp             | 4 ++--
 libs/utils/include/kt_utils/ColumnFile.h | 2 +-
 libs/utils/src/ColumnFile.cpp            | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 299c411..d9fb367 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -16,7 +16,7 @@ void format(Args args) {
     throw DomainError("file not found: " + file.string());
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
       allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index fc7243e..2938959 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -141,14 +141,14 @@ size_t Utf8Count::processFile(const fs::path& file, const OptString& tag) {
   if (_find) return processFileWithRegex(file, tag);
   size_t added{};
   String line;
-  for (std::fstream f{file}; (std::getline(f, line));) added += add(line, tag);
+  for (std::ifstream f{file}; (std::getline(f, line));) added += add(line, tag);
   return added;
 }
 
 size_t Utf8Count::processFileWithRegex(
     const fs::path& file, const OptString& tag) {
   size_t added{};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   for (auto prevUnclosed{false}; std::getline(f, line);
        prevUnclosed = hasUnclosedBrackets(prevLine)) {
diff --git a/libs/utils/include/kt_utils/ColumnFile.h b/libs/utils/include/kt_utils/ColumnFile.h
index 1219b8d..03ecf20 100644
--- a/libs/utils/include/kt_utils/ColumnFile.h
+++ b/libs/utils/include/kt_utils/ColumnFile.h
@@ -137,7 +137,7 @@ private:
 
   [[nodiscard]] String errorMsg(const String&) const;
 
-  std::fstream _file;
+  std::ifstream _file;
   const char _delimiter;
 
   /// holds the 'last component name' of the file being processed
diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 2792d8b..50b8bdd 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -28,7 +28,7 @@ size_t ColumnFile::getColumnNumber(const String& name) {
 }
 
 ColumnFile::ColumnFile(const Path& p, const Columns& columns, char delim)
-    : _file{std::fstream(p)}, _delimiter{delim},
+    : _file{std::ifstream(p)}, _delimiter{delim},
       _fileName{p.filename().string()}, _rowValues{columns.size()},
       _columnToPosition(_allColumns.size(), ColNotFound) {
   assert(_columnToPosition.size() == _allColumns.size()); // need () ctor
-- 
2.43.0


From a483a3ec92a4fb90da79dabf2a468bc5335e5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:29 +0000
Subject: [PATCH 20/30] fix: print a last line that ends with Kanji when
 formatting a file

---
 apps/formatMain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index d9fb367..b26858b 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -40,6 +40,7 @@ void format(Args args) {
       std::cout << line << '\n';
     prevLine = line;
   }
+  if (prevLineEndedWithKanji) std::cout << prevLine << '\n';
 }
 
 int main(int argc, const char** argv) {
-- 
2.43.0


From 1b74fe0478691556a98f924a8f285c8c02390d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:29 +0000
Subject: [PATCH 21/30] fix: don't overflow the stack when formatting a very
 long line of Kana

---
 apps/formatMain.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index b26858b..61183f7 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -2,6 +2,7 @@
 #include <kt_utils/BlockRange.h>
 #include <kt_utils/Exception.h>
 
+#include <algorithm>
 #include <filesystem>
 #include <fstream>
 #include <regex>
@@ -14,14 +15,18 @@ void format(Args args) {
   const std::filesystem::path file{args[1]};
   if (!std::filesystem::is_regular_file(file))
     throw DomainError("file not found: " + file.string());
-  const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
-      allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
+  const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"};
+  const auto isKana{[](wchar_t x) {
+    return x >= KanaRange[0] && x <= KanaRange[2] ||
+           x >= KanaRange[3] && x <= KanaRange[5];
+  }};
   std::ifstream f{file};
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
     if (auto wline{fromUtf8ToWstring(line)}; prevLineEndedWithKanji) {
-      if (std::regex_search(wline, allKana)) {
+      // don't use a regex for this (overflows the stack for very long lines)
+      if (!wline.empty() && std::all_of(wline.begin(), wline.end(), isKana)) {
         prevLineEndedWithKanji = false;
         // The previous line ended with kanji and current line is all hiragana
         // so assume the current line is furigana for the kanji at the end of
-- 
2.43.0


From 233063b82c2e1bebf1f17bb03a29c4d25bb0bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:37 +0000
Subject: [PATCH 22/30] fix: rank Kanji with a different count and the same
 frequency by count

---
 libs/stats/src/Stats.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index dcaf834..bd0e71a 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -111,9 +111,11 @@ KanjiTypes Stats::Count::type() const {
 
 bool Stats::Count::operator<(const Count& x) const {
   return _count > x._count ||
-         (_count == x._count && frequency() < x.frequency() ||
-             (frequency() == x.frequency() && type() < x.type() ||
-                 (type() == x.type() && _name < x._name)));
+         _count == x._count &&
+             (frequency() < x.frequency() ||
+                 frequency() == x.frequency() &&
+                     (type() < x.type() ||
+                         type() == x.type() && _name < x._name));
 }
 
 std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
-- 
2.43.0


From f2bad3d138bcfe7375d985ff3b03ab772e0ccd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:06 +0000
Subject: [PATCH 23/30] fix: don't count questions before the first one asked
 in quiz score

---
 libs/quiz/include/kt_quiz/Quiz.h |  1 +
 libs/quiz/src/Quiz.cpp           | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/libs/quiz/include/kt_quiz/Quiz.h b/libs/quiz/include/kt_quiz/Quiz.h
index 526f932..b49a2de 100644
--- a/libs/quiz/include/kt_quiz/Quiz.h
+++ b/libs/quiz/include/kt_quiz/Quiz.h
@@ -68,6 +68,7 @@ protected:
 
 private:
   const QuizLauncher& _launcher;
+  Question _firstQuestion; ///< first question asked (for the score)
   Question _currentQuestion;
   bool _showMeanings;
   Question _correctAnswers{0};
diff --git a/libs/quiz/src/Quiz.cpp b/libs/quiz/src/Quiz.cpp
index dda3c50..53b1fd0 100644
--- a/libs/quiz/src/Quiz.cpp
+++ b/libs/quiz/src/Quiz.cpp
@@ -16,14 +16,16 @@ void Quiz::run(const Args& args, std::ostream& out) {
 }
 
 Quiz::Quiz(const QuizLauncher& launcher, Question question, bool showMeanings)
-    : _launcher{launcher}, _currentQuestion{question}, _showMeanings{
-                                                           showMeanings} {}
+    : _launcher{launcher}, _firstQuestion{question},
+      _currentQuestion{question}, _showMeanings{showMeanings} {}
 
 Quiz::~Quiz() {
   if (isQuizMode()) {
-    out() << "\nFinal score: " << _correctAnswers << '/' << _currentQuestion;
-    if (_currentQuestion) {
-      const auto skipped{_currentQuestion - _correctAnswers - _mistakes.size()};
+    // don't count questions before the first one that was asked
+    const auto asked{_currentQuestion - _firstQuestion};
+    out() << "\nFinal score: " << _correctAnswers << '/' << asked;
+    if (asked) {
+      const auto skipped{asked - _correctAnswers - _mistakes.size()};
       if (skipped) out() << ", skipped: " << skipped;
       if (!_mistakes.empty()) {
         out() << " - mistakes:";
@@ -55,7 +57,7 @@ std::ostream& Quiz::beginQuizMessage(size_t totalQuestions) {
       KanjiData::usage("entry num '" + std::to_string(_currentQuestion) +
                        "' is larger than total questions: " +
                        std::to_string(totalQuestions));
-    --_currentQuestion;
+    _firstQuestion = --_currentQuestion;
   }
   return log(true) << "Starting " << (isQuizMode() ? "quiz" : "review")
                    << " for " << totalQuestions << ' ';
@@ -69,8 +71,8 @@ std::ostream& Quiz::beginQuestionMessage(size_t totalQuestions) const {
 bool Quiz::showMeanings() const { return _showMeanings; }
 
 void Quiz::correctMessage() {
-  out() << "  Correct! (" << ++_correctAnswers << '/' << _currentQuestion + 1
-        << ")\n";
+  out() << "  Correct! (" << ++_correctAnswers << '/'
+        << _currentQuestion - _firstQuestion + 1 << ")\n";
 }
 
 std::ostream& Quiz::incorrectMessage(const String& name) {
-- 
2.43.0


From 07db02dc38c6c85b1d06dd65e0894a75d7db079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:27 +0000
Subject: [PATCH 24/30] fix: check answers given with upper case letters in
 group quizzes

---
 libs/quiz/src/GroupQuiz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index 4ee0f79..f44d1b1 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -258,7 +258,7 @@ void GroupQuiz::checkAnswers(
   size_t correctCount{};
   for (size_t count{}; auto i : _answers) {
     const auto answer{
-        static_cast<size_t>(i <= 'z' ? i - 'a' : i - 'A' + TotalLetters)};
+        static_cast<size_t>(i >= 'a' ? i - 'a' : i - 'A' + TotalLetters)};
     // always look at reading for a match and only additionally require matching
     // meanings if '_showMeanings' is true
     if (questions[count]->reading() == readings[answer]->reading() &&
-- 
2.43.0


From 3c99393fd8cf4af03cc5b5620255b1981e4ef1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:27 +0000
Subject: [PATCH 25/30] fix: only ask groups with two or more members having
 readings

---
 libs/quiz/src/GroupQuiz.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index f44d1b1..f6313a7 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -34,10 +34,7 @@ GroupQuiz::GroupQuiz(const QuizLauncher& launcher, Question question,
     const auto c{get("Pattern name", PatternGroupChoices, '1')};
     if (isQuit(c)) return;
     start(prepareList(list, c - '1'));
-  } else if (launcher.questionOrder() == QuestionOrder::FromBeginning &&
-             _memberType == MemberType::All)
-    start(list); // can use the original list in this case
-  else
+  } else
     start(prepareList(list));
 }
 
-- 
2.43.0


From 934a5ed0904947c5ebf18df9a5d3da2810c61d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:27 +0000
Subject: [PATCH 26/30] fix: report a missing or too large start number for -r
 and -t as usage errors

---
 libs/quiz/src/QuizLauncher.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/quiz/src/QuizLauncher.cpp b/libs/quiz/src/QuizLauncher.cpp
index 2b26469..09df798 100644
--- a/libs/quiz/src/QuizLauncher.cpp
+++ b/libs/quiz/src/QuizLauncher.cpp
@@ -276,13 +276,13 @@ QuizLauncher::Question QuizLauncher::processProgramModeArg(const String& arg) {
         if (arg[2] == '+') offset = 3;
       }
       const auto s{arg.substr(offset)};
-      if (!std::all_of(s.begin(), s.end(), ::isdigit))
+      if (s.empty() || !std::all_of(s.begin(), s.end(), ::isdigit))
         KanjiData::usage(
             "invalid format for '" + arg.substr(0, 2) + "', use -h for help");
-      if (const auto i{std::stoul(s)};
-          i <= std::numeric_limits<Question>::max())
-        return static_cast<Question>(i);
-      KanjiData::usage("value for '" + arg.substr(0, 2) + "' exceeds limit");
+      Question num{};
+      if (std::stringstream ss{s}; !(ss >> num))
+        KanjiData::usage("value for '" + arg.substr(0, 2) + "' exceeds limit");
+      return num;
     }
   }
   return 0;
-- 
2.43.0


From 46083bbc9739dd85100c2180f6eabaa651ead494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:57 +0000
Subject: [PATCH 27/30] fix: don't loop forever if a list has fewer readings
 than quiz choices

---
 libs/quiz/include/kt_quiz/ListQuiz.h |  4 ++++
 libs/quiz/src/ListQuiz.cpp           | 12 +++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/quiz/include/kt_quiz/ListQuiz.h b/libs/quiz/include/kt_quiz/ListQuiz.h
index e7dde6c..69e5091 100644
--- a/libs/quiz/include/kt_quiz/ListQuiz.h
+++ b/libs/quiz/include/kt_quiz/ListQuiz.h
@@ -40,6 +40,10 @@ public:
       QuizStyle quizStyle);
 
 private:
+  /// return `choiceCount`, but less if `list` has fewer different readings
+  [[nodiscard]] static ChoiceCount limitChoices(
+      ChoiceCount choiceCount, const List& list);
+
   void start(const List&);
 
   [[nodiscard]] const String& getPrompt() const;
diff --git a/libs/quiz/src/ListQuiz.cpp b/libs/quiz/src/ListQuiz.cpp
index 082321e..a3bc4b8 100644
--- a/libs/quiz/src/ListQuiz.cpp
+++ b/libs/quiz/src/ListQuiz.cpp
@@ -23,7 +23,8 @@ ListQuiz::ListQuiz(const QuizLauncher& launcher, Question question,
     bool showMeanings, const List& list, Kanji::Info fields,
     ChoiceCount choiceCount, QuizStyle quizStyle)
     : Quiz{launcher, question, showMeanings},
-      _answers(choiceCount), _infoFields{fields}, _choiceCount{choiceCount},
+      _answers(limitChoices(choiceCount, list)), _infoFields{fields},
+      _choiceCount{static_cast<ChoiceCount>(_answers.size())},
       _quizStyle{quizStyle}, _prompt{getPrompt()}, _choiceEnd{toChar(
                                                        '0' + _choiceCount)} {
   assert(_answers.size() == _choiceCount); // need () ctor
@@ -45,6 +46,15 @@ ListQuiz::ListQuiz(const QuizLauncher& launcher, Question question,
   start(questions);
 }
 
+ListQuiz::ChoiceCount ListQuiz::limitChoices(
+    ChoiceCount choiceCount, const List& list) {
+  // all choices need to have different readings (see 'populateAnswers')
+  ListFile::StringSet readings;
+  for (auto& i : list)
+    if (readings.size() < choiceCount) readings.insert(i->reading());
+  return std::max(static_cast<ChoiceCount>(readings.size()), ChoiceCount{1});
+}
+
 void ListQuiz::start(const List& questions) {
   auto stopQuiz{false};
   for (; !stopQuiz && currentQuestion() < questions.size();
-- 
2.43.0


From 8a403fa182ed7742e27d4cb0d5d72070b844bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:04 +0000
Subject: [PATCH 28/30] fix: don't read past the end of a frequency list that
 is shorter than another one

---
 libs/kanji/src/KanjiData.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 5aa06bd..cb0f0c6 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -112,7 +112,10 @@ KanjiPtr KanjiData::findByFrequency(Kanji::Frequency freq) const {
   bucket /= FrequencyEntries;
   if (bucket >= FrequencyBuckets)
     bucket = FrequencyBuckets - 1; // last bucket contains remaining entries
-  return _frequencies[bucket][freq - bucket * FrequencyEntries];
+  // '_maxFrequency' is shared so it could come from a different (larger) list
+  auto& list{_frequencies[bucket]};
+  const auto pos{static_cast<size_t>(freq - bucket * FrequencyEntries)};
+  return pos < list.size() ? list[pos] : KanjiPtr{};
 }
 
 const KanjiData::List& KanjiData::findByMorohashiId(
-- 
2.43.0


From 148a1b1b97bff4ef35be3d93eef6261ed1cea8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:59:25 +0000
Subject: [PATCH 29/30] fix: don't copy the rest of the text for each character
 when looking for a variation selector

---
 libs/kana/src/Utf8Char.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/kana/src/Utf8Char.cpp b/libs/kana/src/Utf8Char.cpp
index 8630c20..6fa7cb8 100644
--- a/libs/kana/src/Utf8Char.cpp
+++ b/libs/kana/src/Utf8Char.cpp
@@ -168,7 +168,9 @@ bool Utf8Char::validResult(String& result, const char*& loc) {
 }
 
 bool Utf8Char::peekVariant(String& result, const char* loc) {
-  return isValidMBUtf8(loc) && isVariationSelector(result = getMBUtf8(loc));
+  // call the pointer overload (making a String would copy all remaining text)
+  return validateMBUtf8(loc) == MBUtf8Result::Valid &&
+         isVariationSelector(result = getMBUtf8(loc));
 }
 
 template <typename T>
-- 
2.43.0


From 60933230ebaac11929e48554cdbfde451b31a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:57 +0000
Subject: [PATCH 30/30] fix: don't give a character without kJapanese the value
 of the previous one

---
 scripts/parseUcdAllFlat.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parseUcdAllFlat.sh b/scripts/parseUcdAllFlat.sh
index b252080..13a47ac 100755
--- a/scripts/parseUcdAllFlat.sh
+++ b/scripts/parseUcdAllFlat.sh
@@ -572,7 +572,7 @@ LinkType\tMeaning\tOn\tKun\tJapanese" >$outFile
     # No need to unset fields that are in every record such as 'cp', 'age' and
     # 'blk', but need to unset all the optional fields used in 'processRecord'.
     setVars "$s" kTraditionalVariant kSimplifiedVariant kCompatibilityVariant \
-      kSemanticVariant kRSAdobe_Japan1_6 kMandarin kNelson &&
+      kSemanticVariant kRSAdobe_Japan1_6 kMandarin kNelson kJapanese &&
       processRecord "$s" && count+=1
     # kIRG_xSource fields are also included in all Unihan records ("" if empty)
   done < <(grep -E "($outFilter)" $ucdFile)
-- 
2.43.0

