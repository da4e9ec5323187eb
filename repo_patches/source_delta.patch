From 9b12f7c494924fe8f20c86bf7611e1495d8e3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 01/27] fix: keep overridden nodes when the first reading is
 deleted

Deleting the reading at position 0 cleared all nodes of the span that becomes
the first one, although none of them straddles the deleted position, so the
user's choice for the following reading was lost.
---
 src/Engine/gramambular2/reading_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Engine/gramambular2/reading_grid.cpp b/src/Engine/gramambular2/reading_grid.cpp
index 65bbd63..e1ef00c 100644
--- a/src/Engine/gramambular2/reading_grid.cpp
+++ b/src/Engine/gramambular2/reading_grid.cpp
@@ -372,12 +372,14 @@ void ReadingGrid::removeAffectedNodes(size_t loc) {
   //                XXXXX
   //            XXXXXXXXX
   //
-  if (spans_.empty()) {
+  // No node can straddle the beginning of the grid, so there is nothing to
+  // remove when loc is 0.
+  if (spans_.empty() || loc == 0) {
     return;
   }
   size_t affectedLength = kMaximumSpanLength - 1;
   size_t begin = loc <= affectedLength ? 0 : loc - affectedLength;
-  size_t end = loc >= 1 ? loc - 1 : 0;
+  size_t end = loc - 1;
   for (size_t i = begin; i <= end; ++i) {
     spans_[i].removeNodesOfOrLongerThan(loc - i + 1);
   }
-- 
2.43.0


From 576403121cf93e65b8c601630fb7b902f9f48578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 02/27] fix: do not report a reading as usable when all its
 phrases are dropped

hasUnigrams() only considered the excluded phrases. A reading whose only
phrases are unsupported macros was reported as usable although getUnigrams()
returned nothing for it, and the reading grid then had no node for it.
---
 src/Engine/McBopomofoLM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index f498ae3..190c756 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -170,10 +170,11 @@ bool McBopomofoLM::hasUnigrams(const std::string& key) {
     return true;
   }
 
-  if (!excludedPhrases_.hasUnigrams(key)) {
-    return userPhrases_.hasUnigrams(key) || languageModel_.hasUnigrams(key);
+  if (!userPhrases_.hasUnigrams(key) && !languageModel_.hasUnigrams(key)) {
+    return false;
   }
 
+  // The phrases may all be dropped (excluded phrases, unsupported macros).
   return !getUnigrams(key).empty();
 }
 
-- 
2.43.0


From 7bed3b6b48c72740db79f986c2e02e731deac9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 03/27] fix: detect a failed mmap and reset the length of a
 moved-from file

mmap() reports failure with MAP_FAILED, not nullptr, and so opening an empty
file or a directory succeeded with a bogus pointer. The move constructor also
left (size_t)-1 as the length of the moved-from object.
---
 src/Engine/MemoryMappedFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index d6e8952..99296a7 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -35,7 +35,7 @@ namespace McBopomofo {
 MemoryMappedFile::MemoryMappedFile(MemoryMappedFile&& other) noexcept
     : fd_(std::exchange(other.fd_, -1)),
       data_(std::exchange(other.data_, nullptr)),
-      length_(std::exchange(other.length_, -1)) {}
+      length_(std::exchange(other.length_, 0)) {}
 
 MemoryMappedFile& MemoryMappedFile::operator=(
     MemoryMappedFile&& other) noexcept {
@@ -68,9 +68,10 @@ bool MemoryMappedFile::open(const char* path) {
   length_ = static_cast<size_t>(sb.st_size);
 
   data_ = mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
-  if (data_ == nullptr) {
+  if (data_ == MAP_FAILED) {
     ::close(fd_);
     fd_ = -1;
+    data_ = nullptr;
     length_ = 0;
     return false;
   }
-- 
2.43.0


From 0e6e90f0f982cce995402f0d654d140312bf4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 04/27] fix: leave Pinyin mode when another keyboard layout is
 set

---
 src/Engine/Mandarin/Mandarin.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index b797e0a..61c0f56 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -374,9 +374,9 @@ class BopomofoReadingBuffer {
 
   void setKeyboardLayout(const BopomofoKeyboardLayout* layout) {
     layout_ = layout;
+    pinyin_mode_ = layout == BopomofoKeyboardLayout::HanyuPinyinLayout();
 
-    if (layout == BopomofoKeyboardLayout::HanyuPinyinLayout()) {
-      pinyin_mode_ = true;
+    if (pinyin_mode_) {
       pinyin_sequence_ = "";
     }
   }
-- 
2.43.0


From 5ab4facb7c4ceb452671846d30b4a3dbf7fb68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 05/27] fix: do not read past a truncated Bopomofo string

---
 src/Engine/Mandarin/Mandarin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index e5a8152..7817258 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -603,7 +603,7 @@ const BPMF BPMF::FromComposedString(const std::string& str) {
     }
     // NOLINTEND(readability-magic-numbers)
 
-    if (iter + (utf8_length - 1) == str.end()) {
+    if (str.end() - iter < utf8_length) {
       break;
     }
 
-- 
2.43.0


From d77fb0d2179c0e8a2c4e83c5fbbec2d2d6f2f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 06/27] fix: create the user data directory on a fresh install

A misplaced parenthesis made the condition the value of err, so the
mcbopomofo directory was never created and no user file was written.
---
 src/LanguageModelLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 51d270d..547a3bf 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -88,7 +88,7 @@ LanguageModelLoader::LanguageModelLoader(
   }
 
   userDataPath += "/mcbopomofo";
-  if (!std::filesystem::exists(userDataPath), err) {
+  if (!std::filesystem::exists(userDataPath, err)) {
     bool result = std::filesystem::create_directory(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
-- 
2.43.0


From ab8370c7eaee4e190707f6974fe2e7dceefa6c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 07/27] fix: copy the user phrases out of the mapped file

The maps kept views into the mapping of a file the user edits; an editor
that truncates or rewrites it in place changed the entries under the
maps, or made the next lookup die with SIGBUS.
---
 src/Engine/PhraseReplacementMap.cpp | 5 ++---
 src/Engine/PhraseReplacementMap.h   | 6 +++---
 src/Engine/UserPhrasesLM.cpp        | 6 +++---
 src/Engine/UserPhrasesLM.h          | 6 +++---
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/Engine/PhraseReplacementMap.cpp b/src/Engine/PhraseReplacementMap.cpp
index 9a4739a..d3f0a41 100644
--- a/src/Engine/PhraseReplacementMap.cpp
+++ b/src/Engine/PhraseReplacementMap.cpp
@@ -57,7 +57,7 @@ bool PhraseReplacementMap::load(const char* data, size_t length) {
   KeyValueBlobReader reader(data, length);
   KeyValueBlobReader::KeyValue keyValue;
   while (reader.Next(&keyValue) == KeyValueBlobReader::State::HAS_PAIR) {
-    keyValueMap_[keyValue.key] = keyValue.value;
+    keyValueMap_[std::string(keyValue.key)] = std::string(keyValue.value);
   }
   return true;
 }
@@ -65,8 +65,7 @@ bool PhraseReplacementMap::load(const char* data, size_t length) {
 std::string PhraseReplacementMap::valueForKey(const std::string& key) const {
   auto iter = keyValueMap_.find(key);
   if (iter != keyValueMap_.end()) {
-    const std::string_view& v = iter->second;
-    return std::string(v);
+    return iter->second;
   }
   return {};
 }
diff --git a/src/Engine/PhraseReplacementMap.h b/src/Engine/PhraseReplacementMap.h
index 1d2ce7b..1b7829b 100644
--- a/src/Engine/PhraseReplacementMap.h
+++ b/src/Engine/PhraseReplacementMap.h
@@ -43,14 +43,14 @@ class PhraseReplacementMap {
   bool open(const char* path);
   void close();
 
-  // Allows loading existing in-memory data. It's the caller's responsibility
-  // to make sure that data outlives this instance.
+  // Allows loading existing in-memory data. The pairs are copied, so that the
+  // data (or the mapped user file) may change or go away afterwards.
   bool load(const char* data, size_t length);
 
   std::string valueForKey(const std::string& key) const;
 
  protected:
-  std::map<std::string_view, std::string_view> keyValueMap_;
+  std::map<std::string, std::string> keyValueMap_;
   MemoryMappedFile mmapedFile_;
 };
 
diff --git a/src/Engine/UserPhrasesLM.cpp b/src/Engine/UserPhrasesLM.cpp
index 7d6e57f..8e45d11 100644
--- a/src/Engine/UserPhrasesLM.cpp
+++ b/src/Engine/UserPhrasesLM.cpp
@@ -63,7 +63,7 @@ bool UserPhrasesLM::load(const char* data, size_t length) {
     // is the phrase (value) and the second column is the Bopofomo reading. The
     // KeyValueBlobReader::KeyValue's value is the second column, that's why
     // it's used as the key of the keyRowMap here.
-    keyRowMap[keyValue.value].emplace_back(keyValue.key);
+    keyRowMap[std::string(keyValue.value)].emplace_back(keyValue.key);
   }
   return true;
 }
@@ -73,9 +73,9 @@ UserPhrasesLM::getUnigrams(const std::string& key) {
   std::vector<Formosa::Gramambular2::LanguageModel::Unigram> v;
   auto iter = keyRowMap.find(key);
   if (iter != keyRowMap.end()) {
-    const std::vector<std::string_view>& values = iter->second;
+    const std::vector<std::string>& values = iter->second;
     for (const auto& value : values) {
-      v.emplace_back(std::string(value), kUserUnigramScore);
+      v.emplace_back(value, kUserUnigramScore);
     }
   }
 
diff --git a/src/Engine/UserPhrasesLM.h b/src/Engine/UserPhrasesLM.h
index e58e048..ef6f876 100644
--- a/src/Engine/UserPhrasesLM.h
+++ b/src/Engine/UserPhrasesLM.h
@@ -46,8 +46,8 @@ class UserPhrasesLM : public Formosa::Gramambular2::LanguageModel {
   bool open(const char* path);
   void close();
 
-  // Allows loading existing in-memory data. It's the caller's responsibility
-  // to make sure that data outlives this instance.
+  // Allows loading existing in-memory data. The phrases are copied, so that the
+  // data (or the mapped user file) may change or go away afterwards.
   bool load(const char* data, size_t length);
 
   std::vector<Formosa::Gramambular2::LanguageModel::Unigram> getUnigrams(
@@ -58,7 +58,7 @@ class UserPhrasesLM : public Formosa::Gramambular2::LanguageModel {
 
  protected:
   MemoryMappedFile mmapedFile_;
-  std::map<std::string_view, std::vector<std::string_view>> keyRowMap;
+  std::map<std::string, std::vector<std::string>> keyRowMap;
 };
 
 }  // namespace McBopomofo
-- 
2.43.0


From 41604ab40d7136cd977e132c21ed22b0a93f5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 08/27] fix: notice that a user phrase file was deleted

Deleting data.txt or exclude-phrases.txt left its entries in force for
as long as the process ran, since only existing files were compared.
---
 src/LanguageModelLoader.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 547a3bf..9b3718e 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -150,15 +150,14 @@ void LanguageModelLoader::reloadUserModelsIfNeeded() {
   bool shouldReloadUserPhrases = false;
   bool shouldReloadPhrasesReplacement = false;
 
-  if (userPhrasesPath_.pathExists() &&
-      userPhrasesPath_.timestampDifferentFromLastCheck()) {
+  // A path that is gone has no timestamp, which is also a change.
+  if (userPhrasesPath_.timestampDifferentFromLastCheck()) {
     shouldReloadUserPhrases = true;
     userPhrasesPath_.checkTimestamp();
     FCITX_MCBOPOMOFO_INFO() << "Will load: " << userPhrasesPath_.path();
   }
 
-  if (excludedPhrasesPath_.pathExists() &&
-      excludedPhrasesPath_.timestampDifferentFromLastCheck()) {
+  if (excludedPhrasesPath_.timestampDifferentFromLastCheck()) {
     shouldReloadUserPhrases = true;
     excludedPhrasesPath_.checkTimestamp();
     FCITX_MCBOPOMOFO_INFO() << "Will load: " << excludedPhrasesPath_.path();
-- 
2.43.0


From d01caa8986ce13fbb206dadb341c066ddfea19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 09/27] fix: start a new line when adding a user phrase

A user file whose last line lacked the newline had the new phrase glued
to that line, losing both.
---
 src/LanguageModelLoader.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 9b3718e..e678496 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -136,8 +136,19 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
     return;
   }
 
-  // TODO(unassigned): Guard against the case where the last byte is not "\n"?
+  // If the last line was not terminated, terminate it first.
+  bool needsNewline = false;
+  std::ifstream ifs(userPhrasesPath_.path(), std::ios_base::binary);
+  char lastByte = '\n';
+  if (ifs.seekg(-1, std::ios_base::end) && ifs.get(lastByte)) {
+    needsNewline = lastByte != '\n';
+  }
+  ifs.close();
+
   std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
+  if (needsNewline) {
+    ofs << "\n";
+  }
   ofs << phrase << " " << reading << "\n";
   ofs.close();
 
-- 
2.43.0


From ceb77ca4b707967a7501f3c7851f6c2277f0d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 10/27] fix: pass on keys that dismiss the associated phrases
 of Plain Bopomofo

---
 src/McBopomofo.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9d5e77e..fdfbc29 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -639,8 +639,13 @@ void McBopomofoEngine::keyEvent(const fcitx::InputMethodEntry& /*unused*/,
           nullptr ||
       dynamic_cast<InputStates::SelectingFeature*>(state_.get()) != nullptr ||
       dynamic_cast<InputStates::SelectingDateMacro*>(state_.get()) != nullptr) {
-    // Absorb all keys when the candidate panel is on.
-    keyEvent.filterAndAccept();
+    // Absorb all keys when the candidate panel is on, except for those that
+    // dismiss the associated phrases of Plain Bopomofo: nothing is being
+    // composed then, and such a key acts as if there was no panel.
+    if (dynamic_cast<InputStates::AssociatedPhrasesPlain*>(state_.get()) ==
+        nullptr) {
+      keyEvent.filterAndAccept();
+    }
 
 #ifdef USE_LEGACY_FCITX5_API
     auto maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
@@ -683,6 +688,7 @@ void McBopomofoEngine::keyEvent(const fcitx::InputMethodEntry& /*unused*/,
       context->updatePreedit();
     }
     if (handled) {
+      keyEvent.filterAndAccept();
       return;
     }
   }
-- 
2.43.0


From 63ef31b3829d45719337c9302f8f5c8dc75338cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 11/27] fix: Shift-Space commits a space in Plain Bopomofo

---
 src/KeyHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 7dff5cb..92ae1fd 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -240,7 +240,8 @@ bool KeyHandler::handle(Key key, McBopomofo::InputState* state,
 
   // Shift + Space.
   if (key.ascii == Key::SPACE && key.shiftPressed) {
-    if (putLowercaseLettersToComposingBuffer_) {
+    if (putLowercaseLettersToComposingBuffer_ &&
+        inputMode_ != McBopomofo::InputMode::PlainBopomofo) {
       grid_.insertReading(" ");
       walk();
       stateCallback(buildInputtingState());
-- 
2.43.0


From 2930de0c9e8ecd3914792e8cb457adc84a69a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 12/27] fix: number pad keys do not commit the highlighted
 candidate in Plain Bopomofo

---
 src/KeyHandler.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 92ae1fd..da9cd82 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -590,9 +590,12 @@ bool KeyHandler::handleCandidateKeyForTraditionalBopomofoIfRequired(
       std::string(1, key.ascii);
 
   std::string punctuation = kPunctuationKeyPrefix + std::string(1, key.ascii);
-  bool shouldAutoSelectCandidate = reading_.isValidKey(chrStr) ||
-                                   lm_->hasUnigrams(customPunctuation) ||
-                                   lm_->hasUnigrams(punctuation);
+  // As in handle(), only a simple key can be part of a reading.
+  bool isSimpleKey =
+      !key.ctrlPressed && !key.shiftPressed && !key.isFromNumberPad;
+  bool shouldAutoSelectCandidate =
+      (isSimpleKey && reading_.isValidKey(chrStr)) ||
+      lm_->hasUnigrams(customPunctuation) || lm_->hasUnigrams(punctuation);
   if (!shouldAutoSelectCandidate) {
     if (chrStr >= 'A' && chrStr <= 'Z') {
       std::string letter = std::string(kLetterPrefix) + chrStr;
-- 
2.43.0


From 5aebd62d2174447b7ccd20c3df3f6a0832e6c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 13/27] fix: do not read a panel state after it has been
 replaced

---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index fdfbc29..e112a47 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -895,6 +895,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       if (choosing != nullptr) {
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
+        // The state is gone once the callback has replaced it.
+        size_t index = selecting->selectedCandidateIndex;
         stateCallback(std::move(copy));
 
 #ifdef USE_LEGACY_FCITX5_API
@@ -904,7 +906,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = selecting->selectedCandidateIndex;
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
 #ifndef USE_LEGACY_FCITX5_API
         maybeCandidateList->setPage(static_cast<int>(index) /
@@ -930,6 +931,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* inputting = dynamic_cast<InputStates::Inputting*>(previous);
       if (choosing != nullptr) {
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
+        // The state is gone once the callback has replaced it.
+        size_t index = associatedPhrases->selectedCandidateIndex;
         stateCallback(std::move(copy));
 
 #ifdef USE_LEGACY_FCITX5_API
@@ -939,7 +942,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = associatedPhrases->selectedCandidateIndex;
 #ifndef USE_LEGACY_FCITX5_API
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
         maybeCandidateList->setPage(static_cast<int>(index) /
-- 
2.43.0


From da58d98edfbe9cd3699ae2cf6e3f1423a2f77609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 14/27] fix: look up the highlighted candidate on a short last
 page

---
 src/McBopomofo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index e112a47..9536c57 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -802,7 +802,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       // Enter selecting dictionary service state.
       if (keyHandler_->hasDictionaryServices()) {
         int page = candidateList->currentPage();
-        int pageSize = candidateList->size();
+        // The last page may hold fewer entries than the page size.
+        int pageSize = static_cast<int>(selectionKeys_.size());
         int selectedCandidateIndex =
             page * pageSize + candidateList->cursorIndex();
         std::string phrase =
-- 
2.43.0


From cae425451a237bce655cad06666bdd2f35a5180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 15/27] fix: do not crash when a candidate page was turned with
 the mouse

---
 src/McBopomofo.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9536c57..4295c9f 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -31,6 +31,7 @@
 #include <fmt/format.h>
 #include <notifications_public.h>  // from fcitx-module/notifications
 
+#include <algorithm>
 #include <memory>
 #include <sstream>
 #include <unordered_map>
@@ -376,6 +377,13 @@ class LanguageModelLoaderLocalizedStrings
   }
 };
 
+// The index of the highlighted candidate in the page shown. When the page was
+// turned with the mouse, the highlight stays behind on another page, and the
+// first candidate stands for it, as after turning the page with the keyboard.
+static int HighlightedIndex(const fcitx::CommonCandidateList* candidateList) {
+  return std::max(candidateList->cursorIndex(), 0);
+}
+
 static std::string GetOpenFileWith(const McBopomofoConfig& config) {
   return !config.openUserPhraseFilesWith.value().empty()
              ? config.openUserPhraseFilesWith.value()
@@ -805,7 +813,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         // The last page may hold fewer entries than the page size.
         int pageSize = static_cast<int>(selectionKeys_.size());
         int selectedCandidateIndex =
-            page * pageSize + candidateList->cursorIndex();
+            page * pageSize + HighlightedIndex(candidateList);
         std::string phrase =
             choosingCandidate->candidates[selectedCandidateIndex].value;
         std::unique_ptr<InputStates::ChoosingCandidate> copy =
@@ -825,17 +833,13 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   if (keyHandler_->inputMode() == McBopomofo::InputMode::McBopomofo &&
       !shouldUseShiftKey && origKey.code() == kFcitxRawKeycode_Enter &&
       (origKey.states() & fcitx::KeyState::Shift)) {
-    int idx = candidateList->cursorIndex();
+    int idx = HighlightedIndex(candidateList);
     if (idx < candidateList->size()) {
       auto* choosingCandidate =
           dynamic_cast<InputStates::ChoosingCandidate*>(state_.get());
       if (choosingCandidate != nullptr) {
-#ifdef USE_LEGACY_FCITX5_API
         size_t globalIndex =
-            idx + candidateList->size() * candidateList->currentPage();
-#else
-        size_t globalIndex = candidateList->globalCursorIndex();
-#endif
+            idx + selectionKeys_.size() * candidateList->currentPage();
         auto prevState = std::make_unique<InputStates::ChoosingCandidate>(
             *choosingCandidate);
         std::string prefixReading =
@@ -867,7 +871,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   }
 
   if (returnPressed) {
-    int idx = candidateList->cursorIndex();
+    int idx = HighlightedIndex(candidateList);
     if (idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
       candidateList->candidate(idx)->select(context);
@@ -1106,7 +1110,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         keyHandler_->handleCandidateKeyForTraditionalBopomofoIfRequired(
             MapFcitxKey(key),
             [candidateList, context] {
-              auto idx = candidateList->cursorIndex();
+              auto idx = HighlightedIndex(candidateList);
               if (idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
                 candidateList->candidate(idx)->select(context);
-- 
2.43.0


From 06a1264fabdb934d50034f1f6c9baaea75b4db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 16/27] fix: cancelling the feature menu leaves nothing being
 composed

---
 src/KeyHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index da9cd82..ce886d8 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -563,7 +563,8 @@ void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
                                          StateCallback stateCallback) {
-  if (inputMode_ == InputMode::PlainBopomofo) {
+  // The panels of the feature menu are shown over an empty composition.
+  if (inputMode_ == InputMode::PlainBopomofo || grid_.length() == 0) {
     reset();
     std::unique_ptr<InputStates::EmptyIgnoringPrevious>
         emptyIgnorePreviousState =
-- 
2.43.0


From 8599d6ffd1d0f21d061ee36ee6b140397707d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:09 +0000
Subject: [PATCH 17/27] fix: insert associated phrases at the right place, up
 to the first unknown reading

---
 src/KeyHandler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index ce886d8..f295a77 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1606,14 +1606,18 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   }
 
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
-    grid_.insertReading(splitReadings[i]);
-    ++accumulatedCursor;
+    if (!grid_.insertReading(splitReadings[i])) {
+      // The language model doesn't know this reading, so that is as far as we
+      // can go.
+      break;
+    }
     // For each node, we assign the value of the corresponding phrase.
     // If the phrase is not found in the phrase database, we perform a fallback
     // instead.
     if (i < associatedPhraseValues.size()) {
       grid_.overrideCandidate(accumulatedCursor, associatedPhraseValues[i]);
     }
+    ++accumulatedCursor;
     grid_.setCursor(accumulatedCursor);
   }
 
-- 
2.43.0


From 084d67d6dfb6dc88ada6e523aece5ae0027f8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:09 +0000
Subject: [PATCH 18/27] fix: do not keep the composing buffer committed by a
 dictionary lookup

---
 src/KeyHandler.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index f295a77..af72953 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -557,8 +557,16 @@ void KeyHandler::candidateAssociatedPhraseSelected(
 void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
                                            InputState* currentState,
                                            StateCallback stateCallback) {
-  dictionaryServices_->lookup(std::move(phrase), index, currentState,
-                              stateCallback);
+  dictionaryServices_->lookup(
+      std::move(phrase), index, currentState,
+      [this, stateCallback](std::unique_ptr<InputState> next) {
+        bool isEmpty = dynamic_cast<InputStates::Empty*>(next.get()) != nullptr;
+        stateCallback(std::move(next));
+        if (isEmpty) {
+          // The composing buffer has just been committed.
+          reset();
+        }
+      });
 }
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
-- 
2.43.0


From d6a10b4f4980c8065327d074e542fd7598160f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 19/27] fix: find the place of an associated phrase when its
 prefix repeats or is no word

---
 src/KeyHandler.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index af72953..be8b851 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1566,6 +1566,15 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     return;
   }
 
+  // If the node shows the prefix right before the cursor, that is where the
+  // prefix is: the same word may be found around the cursor more than once, and
+  // a part of a node needs not be a word itself.
+  size_t prefixLength =
+      AssociatedPhrasesV2::SplitReadings(prefixReading).size();
+  size_t nodeStart = accumulatedCursor - (*nodeIter)->spanningLength();
+  size_t prefixEnd = actualPrefixCursorIndex + 1;
+  bool prefixIsShown = false;
+
   // Let's do a split override. If a node is now ABCD, let's make four overrides
   // A-B-C-D, essentially splitting the node. Why? Because we're inserting an
   // associated phrase. Say the phrase is BCEF with the prefix BC. If we don't
@@ -1575,11 +1584,18 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   std::vector<std::string> originalNodeValues = Split((*nodeIter)->value());
   if (originalNodeValues.size() == (*nodeIter)->spanningLength()) {
     // Only performs this if the condition is satisfied.
-    size_t overrideIndex = accumulatedCursor - (*nodeIter)->spanningLength();
+    size_t overrideIndex = nodeStart;
     for (const auto& value : originalNodeValues) {
       grid_.overrideCandidate(overrideIndex, value);
       ++overrideIndex;
     }
+    if (prefixEnd >= nodeStart + prefixLength) {
+      std::string shown;
+      for (size_t i = prefixEnd - prefixLength; i < prefixEnd; ++i) {
+        shown += originalNodeValues[i - nodeStart];
+      }
+      prefixIsShown = shown == prefixValue;
+    }
   }
 
   // Now, we override the prefix candidate again. This provides us with
@@ -1587,7 +1603,11 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // associated phrase.
   Formosa::Gramambular2::ReadingGrid::Candidate prefixCandidate{prefixReading,
                                                                 prefixValue};
-  if (!grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate)) {
+  if (prefixIsShown) {
+    actualPrefixCursorIndex = prefixEnd - prefixLength;
+  }
+  if (!grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate) &&
+      !prefixIsShown) {
     return;
   }
   walk();
@@ -1596,24 +1616,25 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // one-reading-for-one-value rule, we can comfortably count how many readings
   // we'll need to insert. First, let's move to the end of the newly overridden
   // phrase.
-  nodeIter =
-      latestWalk_.findNodeAt(actualPrefixCursorIndex, &accumulatedCursor);
+  latestWalk_.findNodeAt(actualPrefixCursorIndex, &accumulatedCursor);
+  if (prefixIsShown) {
+    accumulatedCursor = prefixEnd;
+  }
   grid_.setCursor(accumulatedCursor);
 
   // Compute how many more reading do we have to insert.
   std::vector<std::string> associatedPhraseValues =
       McBopomofo::Split(associatedPhraseValue);
 
-  size_t nodeSpanningLength = (*nodeIter)->spanningLength();
   std::vector<std::string> splitReadings =
       AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
   size_t splitReadingsSize = splitReadings.size();
-  if (nodeSpanningLength >= splitReadingsSize) {
+  if (prefixLength >= splitReadingsSize) {
     // Shouldn't happen
     return;
   }
 
-  for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
+  for (size_t i = prefixLength; i < splitReadingsSize; i++) {
     if (!grid_.insertReading(splitReadings[i])) {
       // The language model doesn't know this reading, so that is as far as we
       // can go.
-- 
2.43.0


From 7ed961206d61ead3180bf1ae90d1cee8950bfb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 20/27] fix: the number pad 9 key types 9

---
 src/McBopomofo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 4295c9f..70a5782 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -156,7 +156,7 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_8:
       return Key::asciiKey('8', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_9:
-      return Key::asciiKey('4', shiftPressed, ctrlPressed, true);
+      return Key::asciiKey('9', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Decimal:
       return Key::asciiKey('.', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Add:
-- 
2.43.0


From e7d9daebf69c4c5e0be10f74c881a465db1f16a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 21/27] fix: keep what follows the placeholder in dictionary
 addresses

---
 src/DictionaryService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 9cf8e18..36660fa 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -93,7 +93,10 @@ class HttpBasedDictionaryService : public McBopomofo::DictionaryService {
               const McBopomofo::StateCallback& stateCallback) override {
     std::string url = urlTemplate_;
     std::string encoded = "(encoded)";
-    url.replace(url.find(encoded), url.length(), urlEncode(phrase));
+    size_t position = url.find(encoded);
+    if (position != std::string::npos) {
+      url.replace(position, encoded.length(), urlEncode(phrase));
+    }
     fcitx::startProcess({"xdg-open", url});
     // Since the input method launches a web browser, we just
     // change the state to close the candidate window.
-- 
2.43.0


From 536b707393258a6667904dca4057678cec57d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 22/27] fix: skip malformed dictionary service definitions

---
 src/DictionaryService.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 36660fa..7e96511 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -196,14 +196,17 @@ void McBopomofo::DictionaryServices::load() {
     return;
   }
   struct json_object* servicesArray;
-  if (json_object_object_get_ex(json_obj, "services", &servicesArray)) {
+  if (json_object_object_get_ex(json_obj, "services", &servicesArray) &&
+      json_object_is_type(servicesArray, json_type_array)) {
     array_list* list = json_object_get_array(servicesArray);
     for (size_t i = 0; i < array_list_length(list); i++) {
       auto* element = (struct json_object*)array_list_get_idx(list, i);
       struct json_object* name;
       struct json_object* url_template;
       if (json_object_object_get_ex(element, "name", &name) &&
-          json_object_object_get_ex(element, "url_template", &url_template)) {
+          json_object_object_get_ex(element, "url_template", &url_template) &&
+          json_object_is_type(name, json_type_string) &&
+          json_object_is_type(url_template, json_type_string)) {
         std::string name_str = std::string(json_object_get_string(name));
         std::string url_template_str =
             std::string(json_object_get_string(url_template));
-- 
2.43.0


From 0fcc8455d3a6789940c2aaa581c1a10347628fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 23/27] fix: create missing parents of the fcitx5 user data
 directory

On a first start without an existing XDG_DATA_HOME the user data directory
could not be created, so that no user phrase was ever saved.
---
 src/LanguageModelLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index e678496..e508c6f 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -76,7 +76,7 @@ LanguageModelLoader::LanguageModelLoader(
 
   [[maybe_unused]] std::error_code err;
   if (!std::filesystem::exists(userDataPath, err)) {
-    bool result = std::filesystem::create_directory(userDataPath, err);
+    bool result = std::filesystem::create_directories(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
           << "Created fcitx5 user data directory: " << userDataPath;
-- 
2.43.0


From 761198db1cb26a5fd38ba6de694bb3e8f48d3514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 24/27] fix: honour the configured number of selection keys

The preference was shown but nothing read it.
---
 src/McBopomofo.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 70a5782..166c971 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -1280,6 +1280,13 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_8);
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_9);
     }
+    size_t keysCount = static_cast<size_t>(config_.selectionKeysCount.value());
+    if (selectionKeys_.size() > keysCount) {
+      selectionKeys_.resize(keysCount);
+    }
+    if (numpadSelectionKeys_.size() > keysCount) {
+      numpadSelectionKeys_.resize(keysCount);
+    }
     candidateList->setSelectionKey(selectionKeys_);
     candidateList->setPageSize(static_cast<int>(selectionKeys_.size()));
   }
-- 
2.43.0


From 924f1efd3e16f6df4be1f54ad29b1cfe1c9ac200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 25/27] fix: do not let a learned suggestion replace a word the
 user chose

---
 src/KeyHandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index be8b851..e69512c 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -181,7 +181,13 @@ bool KeyHandler::handle(Key key, McBopomofo::InputState* state,
       UserOverrideModel::Suggestion suggestion = userOverrideModel_.suggest(
           latestWalk_, actualCandidateCursorIndex(), GetEpochNowInSeconds());
 
-      if (!suggestion.empty()) {
+      // A word that is already overridden is the user's own choice (this can be
+      // the word after the cursor), and no suggestion should replace it.
+      auto nodeIter = latestWalk_.findNodeAt(actualCandidateCursorIndex());
+      bool overridden = nodeIter != latestWalk_.nodes.cend() &&
+                        (*nodeIter)->isOverridden();
+
+      if (!suggestion.empty() && !overridden) {
         Formosa::Gramambular2::ReadingGrid::Node::OverrideType t =
             suggestion.forceHighScoreOverride
                 ? Formosa::Gramambular2::ReadingGrid::Node::OverrideType::
-- 
2.43.0


From d489e5cf9bd7d55b772842cc5b8c276b0546f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 26/27] fix: leave nothing in the input panel after a reset or
 a focus change

fcitx5 does not clear the input panel itself. The pre-edit it had committed
on focus out stayed there and was committed again on the next focus out,
and the entries of a menu left open kept pointing to the state that reset()
had destroyed.
---
 src/McBopomofo.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 166c971..5705956 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -526,6 +526,12 @@ void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
   chttrans();
 
   auto* inputContext = event.inputContext();
+  if (!inputContext->inputPanel().clientPreedit().toString().empty()) {
+    // Left behind by reset() on focus out, and already committed by fcitx5.
+    inputContext->inputPanel().setClientPreedit(fcitx::Text());
+    inputContext->updatePreedit();
+  }
+
   if (auto* action =
           instance_->userInterfaceManager().lookupAction("chttrans")) {
     inputContext->statusArea().addAction(fcitx::StatusGroup::InputMethod,
@@ -614,6 +620,19 @@ void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
     // commit of existing preedit buffer, resulting in double commit of the same
     // text.
     state_ = std::make_unique<InputStates::Empty>();
+
+    // What the input panel shows belongs to the state that is now gone; its
+    // candidates even refer to it. Only keep the client preedit on focus out,
+    // for fcitx5 to commit; activate() clears it when the focus comes back.
+    fcitx::InputContext* context = event.inputContext();
+    fcitx::Text clientPreedit = context->inputPanel().clientPreedit();
+    context->inputPanel().reset();
+    if (event.type() == fcitx::EventType::InputContextFocusOut) {
+      context->inputPanel().setClientPreedit(clientPreedit);
+    } else {
+      context->updatePreedit();
+    }
+    context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
   } else {
     enterNewState(event.inputContext(), std::make_unique<InputStates::Empty>());
   }
-- 
2.43.0


From 3d1e8bdc143462e408db62babf0f3cfbdaaf6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 27/27] fix: do not hand the composition of a closed client to
 the next one

An input context that is closed while composing is not deactivated, so the
composition was still there when another input context was activated.
---
 src/McBopomofo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 5705956..e795d1b 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -525,6 +525,11 @@ void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
 
   chttrans();
 
+  // An input context that was closed while composing leaves its composition
+  // behind: it is not deactivated first.
+  keyHandler_->reset();
+  state_ = std::make_unique<InputStates::Empty>();
+
   auto* inputContext = event.inputContext();
   if (!inputContext->inputPanel().clientPreedit().toString().empty()) {
     // Left behind by reset() on focus out, and already committed by fcitx5.
-- 
2.43.0

