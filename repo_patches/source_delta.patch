From 6595fd2b9eeb83b3171aabccdd891ffd33b52804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 01/32] fix: initialise the --version flag

main() read an uninitialised bool when --version was not given, so wer and
align runs would, depending on stack contents, print the version and exit 0
without doing any work.
---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d87ddbc..ea84278 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -26,7 +26,7 @@ int main(int argc, char **argv) {
   string output_json_log;
   string symbols_filename = "";
   int pr_threshold = 0;
-  bool version;
+  bool version = false;
   string composition_approach = "adapted";
   int speaker_switch_context_size = 5;
   int numBests = 100;
-- 
2.43.0


From 94fd064e201283f19fd55bd4ea7177ccf1f611fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 02/32] fix: do not walk past the end when the alignment is
 empty

---
 src/utilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index a1ebc31..1e2b4cb 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -158,6 +158,11 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
     }
   }
 
+  if (flattened_tokens.empty()) {
+    // nothing was aligned: there are no bigrams, and no last element to stop at
+    return all_bigrams;
+  }
+
   for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
     bi_words = {it->first, std::next(it)->first};
     bigram_ref = string_join(bi_words, " ");
-- 
2.43.0


From 50ea32f3a647fdd77513bc0ec394345296de6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 03/32] fix: keep the current row when the edit distance
 backtrack goes left

After a step to the left the backtrack stays on the same row, but the row of
the previous sequence position was loaded, so the following steps were chosen
from the wrong distances and the marked matches were not those of a minimal
edit script.
---
 src/fast-d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index 128d927..efeca22 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -200,7 +200,7 @@ int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<
     // above
 
     for (int x = 0; x <= lengthA; x++) {
-      distance[x] = distancePrev[x];
+      distance[x] = all_distances[seqB_track][x];
     }
 
     // Step 2, let's look at the row above the one we are now.
-- 
2.43.0


From c6ea8ab0f3a5f911f5080437c87050cd76aba00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 04/32] fix: do not withhold deletions because another arc of
 the state matched

Whether a reference word can be deleted depends on whether that word matches.
The counter was shared by all arcs leaving the state, and raised by a mere
class or synonym label, so adding a synonym or a normalization could increase
the number of errors.
---
 src/AdaptedComposition.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index f444974..ee91e28 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -271,6 +271,9 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
     bool is_synonym = IsSynonymLabel(arcA.olabel);
     bool is_entity = is_synonym || IsEntityLabel(arcA.olabel);
 
+    // matches only count for the word they were found for
+    num_match = 0;
+
     // ok, so the reference label
     if (is_entity) {
       bool is_exit_state = entity_exit_states.find(make_pair(refA, (int)arcA.olabel)) != entity_exit_states.end();
@@ -284,7 +287,6 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
       if (is_exit_state || !is_synonym || IsEntityReacheable(arcA.olabel, arcA.nextstate, refB)) {
         // we have an arc like __SYN-1__ or __MONEY-1__
         num_entity++;
-        num_match++;
         // let's keep the weight to 0, this isn't an error
         StateId del_state_ref_id = GetOrCreateComposedState(arcA.nextstate, refB);
         out_vector->push_back(StdArc(arcA.ilabel, del_label_id_, 0.0, del_state_ref_id));
-- 
2.43.0


From 6109942ac8872084d914495d9ad54ea95e308827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 05/32] fix: take the whole first label when a row carries
 several

---
 src/Nlp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 0bf287f..5b6fd3f 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -395,8 +395,8 @@ std::string NlpReader::GetBestLabel(std::string &labels) {
 
     // chop before the 1st comma, if needed
     auto pos = trimmed.find(",");
-    if (pos > 0) {
-      trimmed = trimmed.substr(0, pos - 2);
+    if (pos != std::string::npos) {
+      trimmed = trimmed.substr(0, pos);
     }
 
     // remove the leading/ending single-quote
-- 
2.43.0


From b6a6d2bf72526c2dd0f58b318a199664cfdf1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 06/32] fix: keep the original casing of non-ASCII tokens in
 the aligned nlp

---
 src/utilities.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index 1e2b4cb..1422c0f 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -58,20 +58,13 @@ void splitString(const std::string &str, char delimiter, StringFunction f) {
   }
 }
 
-struct iequal {
-  bool operator()(int c1, int c2) const { return std::toupper(c1) == std::toupper(c2); }
-};
-
 bool iequals(const std::string &str1, const std::string &str2) {
-  if (str1.size() != str2.size()) {
-    return false;
-  }
-
   if (str1 == str2) {
     return true;
   }
 
-  return std::equal(str1.begin(), str1.end(), str2.begin(), iequal());
+  // same notion of case as when the tokens were lowercased
+  return UnicodeLowercase(str1) == UnicodeLowercase(str2);
 }
 
 // trim from start (in place)
-- 
2.43.0


From 0888f4c1723e5acd728b66ef43ce7ef7cf2f4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 07/32] fix: report the precision and recall of align instead
 of uninitialised memory

---
 src/fstalign.cpp | 1 +
 src/utilities.h  | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 37ee686..4010b61 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -710,6 +710,7 @@ void HandleAlign(NlpFstLoader& refLoader, CtmFstLoader& hypLoader, SynonymEngine
                  AlignerOptions alignerOptions) {
   //  int numBests, string symbols_filename, string composition_approach) {
   auto topAlignment = Fstalign(refLoader, hypLoader, engine, alignerOptions);
+  CalculatePrecisionRecall(topAlignment, alignerOptions.pr_threshold);
   // dump the WER details even when we're just considering alignment
   RecordWer(topAlignment);
 
diff --git a/src/utilities.h b/src/utilities.h
index dbe794d..8f7eee2 100644
--- a/src/utilities.h
+++ b/src/utilities.h
@@ -78,8 +78,8 @@ struct wer_alignment {
   vector<string> ins_words;
   vector<pair<string, string>> sub_words;
 
-  precision_t precision;
-  recall_t recall;
+  precision_t precision = 0.0f;
+  recall_t recall = 0.0f;
   // map<string, pair<precision_t, recall_t>> unigram_stats;
   vector<pair<string, gram_error_counter>> unigram_stats;
 
-- 
2.43.0


From c05c4aca8e1ecd9aa7579764a4303edb2a291e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 08/32] fix: refuse align inputs of the wrong kind instead of
 crashing

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index ea84278..e39cad3 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -195,6 +195,11 @@ int main(int argc, char **argv) {
     NlpFstLoader *nlpRef = dynamic_cast<NlpFstLoader *>(ref.get());
     CtmFstLoader *ctmHyp = dynamic_cast<CtmFstLoader *>(hyp.get());
 
+    if (nlpRef == nullptr || ctmHyp == nullptr) {
+      console->error("align needs an nlp reference and a ctm hypothesis");
+      return 1;
+    }
+
     HandleAlign(*nlpRef, *ctmHyp, engine, output_nlp_file, alignerOptions);
 
     output_nlp_file.flush();
-- 
2.43.0


From 1781172618b316195410c0266a0e9820af9d6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 09/32] fix: a missing ctm file is an error, not an empty
 transcript

---
 src/Ctm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index e674e43..2b9bece 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -151,6 +151,7 @@ vector<RawCtmRecord> read_from_disk_with_conf(const string &filename) {
 
 vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   ifstream ctm_peek(filename);
+  if (!ctm_peek.is_open()) throw std::runtime_error("Cannot open input file");
   string first_line;
   if (!std::getline(ctm_peek, first_line)) {
     vector<RawCtmRecord> vect;
-- 
2.43.0


From f83abaf3b7af7df4e68d5e2b1699c7f68a8ed4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 10/32] fix: report unreadable fst and symbols files instead of
 crashing

---
 src/FstFileLoader.cpp | 1 +
 src/fstalign.cpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FstFileLoader.cpp b/src/FstFileLoader.cpp
index 0994766..5cf5bc5 100644
--- a/src/FstFileLoader.cpp
+++ b/src/FstFileLoader.cpp
@@ -10,6 +10,7 @@ void FstFileLoader::addToSymbolTable(fst::SymbolTable& symbol) const { return; }
 fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, std::vector<int> map) const {
   auto logger = logger::GetOrCreateLogger("FstFileLoader");
   fst::StdVectorFst* transducer = fst::StdVectorFst::Read(filename_);
+  if (transducer == nullptr) throw std::runtime_error("Cannot read the input fst");
   logger->info("Total FST has {} states.", transducer->NumStates());
   return (*transducer);
 }
diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 4010b61..0120a0a 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -51,7 +51,9 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   SymbolTable symbol;
   if (!alignerOptions.symbols_filename.empty()) {
     std::ifstream strm(alignerOptions.symbols_filename, std::ios_base::in);
-    symbol = *(SymbolTable::ReadText(strm, "symbols"));
+    SymbolTable *symbols_read = SymbolTable::ReadText(strm, "symbols");
+    if (symbols_read == nullptr) throw std::runtime_error("Cannot read the symbols file");
+    symbol = *symbols_read;
   } else {
     symbol = SymbolTable("symbols");
   }
-- 
2.43.0


From 882e5110a5070a776df2f3731450e661b8c27035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 11/32] fix: an entity aligned to nothing adds no reference
 word to the detailed WERs

---
 src/wer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 1b2f066..eeeeeab 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -77,7 +77,7 @@ void RecordSentenceWer(const vector<Stitching> &stitches) {
       curr_wer.deletions += stitch.comment.rfind("del", 0) == 0;
       curr_wer.insertions += stitch.comment.rfind("ins", 0) == 0;
       curr_wer.substitutions += stitch.comment.rfind("sub", 0) == 0;
-      curr_wer.numWordsInReference += stitch.comment.rfind("ins", 0) != 0;
+      curr_wer.numWordsInReference += stitch.comment.rfind("ins", 0) != 0 && stitch.reftk != NOOP;
 
       // Check if we hit EOS
       if (eos_punc.find(stitch.nlpRow.punctuation) != eos_punc.end()) {
@@ -134,7 +134,7 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
     insertions += stitch.comment.rfind("ins", 0) == 0;
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
-    num_words_in_reference += speaker_id.empty() ? 0 : 1;
+    num_words_in_reference += (speaker_id.empty() || stitch.reftk == NOOP) ? 0 : 1;
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
@@ -219,7 +219,7 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       bool sub = stitch.comment.rfind("sub", 0) == 0;
       if (nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
           nlpRowIndex < switch_indices[switchNum] + speaker_switch_context_size) {
-        if (!ins) {
+        if (!ins && stitch.reftk != NOOP) {
           wer.numWordsInReference++;
         }
 
@@ -266,7 +266,7 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
     const string &hyptk = stitch.hyptk;
     const string &ref_casing = stitch.nlpRow.casing;
 
-    if (hyptk == DEL || reftk == INS) {
+    if (hyptk == DEL || reftk == INS || reftk == NOOP) {
       continue;
     }
 
@@ -358,7 +358,7 @@ void RecordTagWer(const vector<Stitching>& stitches) {
         wer_results[wer_tag.tag_id].insertions += ins;
         wer_results[wer_tag.tag_id].deletions += del;
         wer_results[wer_tag.tag_id].substitutions += sub;
-        if (!ins) {
+        if (!ins && stitch.reftk != NOOP) {
           wer_results[wer_tag.tag_id].numWordsInReference += 1;
         }
       }
-- 
2.43.0


From 9884f13140bec492558457a51d6d92aebeeb9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 12/32] fix: let a word that matches be deleted when the
 reference has alternative readings

---
 src/AdaptedComposition.cpp | 16 +++++++++++++---
 src/AdaptedComposition.h   |  4 ++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index ee91e28..2881d34 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -13,7 +13,7 @@ AdaptedComposition.cpp
 #include "logging.h"
 
 AdaptedCompositionFst::AdaptedCompositionFst(const fst::StdFst &fstA, const fst::StdFst &fstB)
-    : fstA_{fstA}, fstB_{fstB}, symbols_{NULL} {
+    : symbols_{NULL}, fstA_{fstA}, fstB_{fstB}, has_alternatives_{HasAlternatives(fstA)} {
   logger_ = logger::GetOrCreateLogger("AdaptedCompositionFst");
   logger_->set_level(spdlog::level::info);
 #if TRACE
@@ -22,7 +22,7 @@ AdaptedCompositionFst::AdaptedCompositionFst(const fst::StdFst &fstA, const fst:
 }
 
 AdaptedCompositionFst::AdaptedCompositionFst(const fst::StdFst &fstA, const fst::StdFst &fstB, SymbolTable &symbols)
-    : fstA_{fstA}, fstB_{fstB} {
+    : fstA_{fstA}, fstB_{fstB}, has_alternatives_{HasAlternatives(fstA)} {
   logger_ = logger::GetOrCreateLogger("AdaptedCompositionFst");
   logger_->set_level(spdlog::level::info);
 #if TRACE
@@ -38,6 +38,15 @@ AdaptedCompositionFst::AdaptedCompositionFst(const fst::StdFst &fstA, const fst:
 
 AdaptedCompositionFst::~AdaptedCompositionFst() {}
 
+bool AdaptedCompositionFst::HasAlternatives(const fst::StdFst &fst) {
+  for (StateIterator<StdFst> siter(fst); !siter.Done(); siter.Next()) {
+    if (fst.NumArcs(siter.Value()) > 1) {
+      return true;
+    }
+  }
+  return false;
+}
+
 bool AdaptedCompositionFst::IsEntityLabel(int labelId) {
   if (symbols_ != NULL) {
     return entity_label_ids[labelId];
@@ -356,7 +365,8 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
       }
     }
 
-    if (num_match == 0 || weightA < 0) {
+    // a word that matches is only worth deleting when there are several ways to read the reference
+    if (num_match == 0 || weightA < 0 || has_alternatives_) {
       // let's add a potential deletion
       // TODO: we can be more clever here
       //
diff --git a/src/AdaptedComposition.h b/src/AdaptedComposition.h
index bb03801..a5c54fd 100644
--- a/src/AdaptedComposition.h
+++ b/src/AdaptedComposition.h
@@ -58,6 +58,10 @@ class AdaptedCompositionFst : public IComposition {
   const fst::StdFst &fstA_;
   const fst::StdFst &fstB_;
 
+  // the reference can be read in more than one way (synonyms, normalizations, ...)
+  const bool has_alternatives_;
+
+  static bool HasAlternatives(const fst::StdFst &fst);
   StateId GetOrCreateComposedState(StateId a, StateId b);
   bool IsEntityLabel(int labelId);
   bool IsSynonymLabel(int labelId);
-- 
2.43.0


From 5e21536f8d8ebb5c5c996019dcb79dbce1b6a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 13/32] fix: leave every speaker switch window that ends at a
 word, not only the first

---
 src/wer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index eeeeeab..1fb07e6 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -235,7 +235,8 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       if (!ins) {
         nlpRowIndex++;
       }
-      if (nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {
+      while (switchNum < switch_indices.size() &&
+             nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {
         switchNum++;
       }
     } else {
-- 
2.43.0


From a05fa6fe1baeb57ffad5f5301bbff03bd005492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 14/32] fix: refuse fst inputs without a symbols file instead
 of dereferencing nothing

---
 src/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index e39cad3..656eb7c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -281,7 +281,7 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
     return std::make_unique<CtmFstLoader>(vect, use_case);
   } else if (EndsWithCaseInsensitive(ref_filename, string(".fst"))) {
     if (!symbols_file_included) {
-      console->error("a symbols file must be specified if reading an FST.");
+      throw std::runtime_error("a symbols file must be specified if reading an FST.");
     }
     console->info("reading reference fst from {}", ref_filename);
     return std::make_unique<FstFileLoader>(ref_filename);
@@ -346,7 +346,7 @@ std::unique_ptr<FstLoader> FstLoader::MakeHypothesisLoader(const std::string& hy
     return std::make_unique<CtmFstLoader>(vect, use_case);
   } else if (EndsWithCaseInsensitive(hyp_filename, string(".fst"))) {
     if (!symbols_file_included) {
-      console->error("a symbols file must be specified if reading an FST.");
+      throw std::runtime_error("a symbols file must be specified if reading an FST.");
     }
     console->info("reading hypothesis fst from {}", hyp_filename);
     return std::make_unique<FstFileLoader>(hyp_filename);
-- 
2.43.0


From 80f5ae6ffec56eeeac42ada38d181ac0a5f3402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 15/32] fix: missing or malformed json sidecars are errors, not
 empty sidecars

---
 src/main.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 656eb7c..1149eef 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -233,12 +233,15 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
   if (!json_norm_filename.empty()) {
     console->info("reading json norm info from {}", json_norm_filename);
     ifstream ifs(json_norm_filename);
+    if (!ifs.is_open()) throw std::runtime_error("Cannot open json file " + json_norm_filename);
 
     Json::CharReaderBuilder builder;
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &obj, &errs)) {
+      throw std::runtime_error("Cannot parse json file " + json_norm_filename + ": " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", json_norm_filename, obj.size());
   } else {
@@ -253,12 +256,15 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
   if (!wer_sidecar_filename.empty()) {
     console->info("reading wer sidecar info from {}", wer_sidecar_filename);
     ifstream ifs(wer_sidecar_filename);
+    if (!ifs.is_open()) throw std::runtime_error("Cannot open json file " + wer_sidecar_filename);
 
     Json::CharReaderBuilder builder;
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs)) {
+      throw std::runtime_error("Cannot parse json file " + wer_sidecar_filename + ": " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", wer_sidecar_filename, wer_sidecar_obj.size());
   } else {
@@ -306,12 +312,15 @@ std::unique_ptr<FstLoader> FstLoader::MakeHypothesisLoader(const std::string& hy
   if (!hyp_json_norm_filename.empty()) {
     console->info("reading hypothesis json norm info from {}", hyp_json_norm_filename);
     ifstream ifs(hyp_json_norm_filename);
+    if (!ifs.is_open()) throw std::runtime_error("Cannot open json file " + hyp_json_norm_filename);
 
     Json::CharReaderBuilder builder;
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &hyp_json_obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &hyp_json_obj, &errs)) {
+      throw std::runtime_error("Cannot parse json file " + hyp_json_norm_filename + ": " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", hyp_json_norm_filename, hyp_json_obj.size());
   } else {
-- 
2.43.0


From d93c83b27ba00e3f7c3b396bf48590e0ad7b22a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 16/32] fix: inputs that cannot be read to their end are
 errors, not empty transcripts

---
 src/Ctm.cpp              | 1 +
 src/OneBestFstLoader.cpp | 1 +
 src/SynonymEngine.cpp    | 1 +
 src/fstalign.cpp         | 2 +-
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index 2b9bece..afa2860 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -154,6 +154,7 @@ vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   if (!ctm_peek.is_open()) throw std::runtime_error("Cannot open input file");
   string first_line;
   if (!std::getline(ctm_peek, first_line)) {
+    if (ctm_peek.bad()) throw std::runtime_error("Cannot read input file");
     vector<RawCtmRecord> vect;
     return vect;
   }
diff --git a/src/OneBestFstLoader.cpp b/src/OneBestFstLoader.cpp
index b705786..1d0b25c 100644
--- a/src/OneBestFstLoader.cpp
+++ b/src/OneBestFstLoader.cpp
@@ -30,6 +30,7 @@ void OneBestFstLoader::LoadTextFile(const std::string filename) {
   std::copy(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>(),
             std::back_inserter(mToken));
 
+  if (stream.bad()) throw std::runtime_error("Cannot read input file");
   stream.close();
 }
 
diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index ff5acb3..97ccb4a 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -27,6 +27,7 @@ void SynonymEngine::LoadFile(string filename) {
   while (std::getline(input, s)) {
     lines.push_back(s);
   }
+  if (input.bad()) throw std::runtime_error("Cannot read input file");
   input.close();
 
   ParseStrings(lines);
diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 0120a0a..1a943cc 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -52,7 +52,7 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   if (!alignerOptions.symbols_filename.empty()) {
     std::ifstream strm(alignerOptions.symbols_filename, std::ios_base::in);
     SymbolTable *symbols_read = SymbolTable::ReadText(strm, "symbols");
-    if (symbols_read == nullptr) throw std::runtime_error("Cannot read the symbols file");
+    if (symbols_read == nullptr || strm.bad()) throw std::runtime_error("Cannot read the symbols file");
     symbol = *symbols_read;
   } else {
     symbol = SymbolTable("symbols");
-- 
2.43.0


From 80d6535c0bdd6874e9523785ed811f1e5e89b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 17/32] fix: report outputs that cannot be written instead of
 exiting successfully

---
 src/fstalign.cpp | 1 +
 src/main.cpp     | 3 +++
 src/wer.cpp      | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 1a943cc..c2a0953 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -693,6 +693,7 @@ void HandleWer(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine &engine
 
     if (!output_nlp.empty()) {
       ofstream nlp_ostream(output_nlp);
+      if (!nlp_ostream.is_open()) throw std::runtime_error("Cannot open output file " + output_nlp);
       write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp);
     }
   }
diff --git a/src/main.cpp b/src/main.cpp
index 1149eef..84f46aa 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -184,10 +184,12 @@ int main(int argc, char **argv) {
   } else if (command == "align") {
     if (output_nlp.empty()) {
       console->error("the output nlp file must be specified");
+      return 1;
     }
 
     console->info("we'll be writing to {}", output_nlp);
     ofstream output_nlp_file(output_nlp);
+    if (!output_nlp_file.is_open()) throw std::runtime_error("Cannot open output file " + output_nlp);
 
     // TODO: We should instrument FstLoader base class
     // to have nlp rows and ctm rows and have a getCtmRows/getNlpRows
@@ -215,6 +217,7 @@ int main(int argc, char **argv) {
     console->info("Writing JSON log output to {}", output_json_log);
     ofstream jsonFile;
     jsonFile.open(output_json_log);
+    if (!jsonFile.is_open()) throw std::runtime_error("Cannot open output file " + output_json_log);
     jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;
     jsonFile.close();
   }
diff --git a/src/wer.cpp b/src/wer.cpp
index 1fb07e6..43ba661 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -533,6 +533,7 @@ void WriteSbs(wer_alignment &topAlignment, const vector<Stitching>& stitches, st
 
   ofstream myfile;
   myfile.open(sbs_filename);
+  if (!myfile.is_open()) throw std::runtime_error("Cannot open output file " + sbs_filename);
 
   AlignmentTraversor visitor(topAlignment);
   string prev_tk_classLabel = "";
-- 
2.43.0


From c301cf8a4f5541a3d16a68258bfdf73fe3c2cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 18/32] fix: a missing symbols file is an error, not an empty
 table

---
 src/fstalign.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index c2a0953..4aa3ef3 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -51,6 +51,7 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   SymbolTable symbol;
   if (!alignerOptions.symbols_filename.empty()) {
     std::ifstream strm(alignerOptions.symbols_filename, std::ios_base::in);
+    if (!strm.is_open()) throw std::runtime_error("Cannot open the symbols file");
     SymbolTable *symbols_read = SymbolTable::ReadText(strm, "symbols");
     if (symbols_read == nullptr || strm.bad()) throw std::runtime_error("Cannot read the symbols file");
     symbol = *symbols_read;
-- 
2.43.0


From f8e74eeb2d3688c3f989d74fbdcbafb6c897edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:48 +0000
Subject: [PATCH 19/32] fix: skip synonym rules that have nothing to match

---
 src/SynonymEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index 97ccb4a..910b3ca 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -88,6 +88,11 @@ void SynonymEngine::ParseStrings(vector<string> lines) {
 
     trim(lhs);
     auto key = GetKeyFromString(lhs);
+    if (key.empty()) {
+      // there's nothing to match in the fst
+      logger_->warn("strangly formatted line, skipping: {}", line);
+      continue;
+    }
 
     if (synonyms.find(key) == synonyms.end()) {
       // new entry
-- 
2.43.0


From d59ec3f84cc7cf0d0f782ba042fc4247e9ef883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:48 +0000
Subject: [PATCH 20/32] fix: report inputs that the edit operations cannot be
 composed with instead of dereferencing nothing

---
 src/StandardComposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StandardComposition.cpp b/src/StandardComposition.cpp
index 63b6fc5..ee6d03e 100644
--- a/src/StandardComposition.cpp
+++ b/src/StandardComposition.cpp
@@ -79,7 +79,7 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
     logger_->warn("halfCompose1 (ref o edits) produced an FST with 0 state");
     logger_->warn("halEdit1 was:");
     printFst("fstalign", &halfEdit1, symbols_);
-    return;
+    throw std::runtime_error("the reference cannot be composed with the edit operations");
   }
 
   ArcSort(&halfCompose1, StdOLabelCompare());
@@ -97,7 +97,7 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
     logger_->warn("halfCompose2 (hyp o edits) produced an FST with 0 state");
     logger_->warn("halEdit2 was:");
     printFst("fstalign", &halfEdit2, symbols_);
-    return;
+    throw std::runtime_error("the hypothesis cannot be composed with the edit operations");
   }
 
   ArcSort(&halfCompose2, StdILabelCompare());
-- 
2.43.0


From d35a02527904b3abb6743f4462e7d3c627ee0036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 21/32] fix: do not read past the rows when stitching labels
 that come back later

---
 src/fstalign.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 4aa3ef3..1dfa2b7 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -282,7 +282,7 @@ vector<Stitching> make_stitches(wer_alignment &alignment, vector<RawCtmRecord> h
       continue;
     }
 
-    if (!hyp_ctm_rows.empty()) {
+    if (hypRowIndex < (int)hyp_ctm_rows.size()) {
       auto ctmPart = hyp_ctm_rows[hypRowIndex];
       part.start_ts = ctmPart.start_time_secs;
       part.duration = ctmPart.duration_secs;
@@ -304,7 +304,7 @@ vector<Stitching> make_stitches(wer_alignment &alignment, vector<RawCtmRecord> h
       }
     }
 
-    if (!hyp_nlp_rows.empty()) {
+    if (hypRowIndex < (int)hyp_nlp_rows.size()) {
       auto hypNlpPart = hyp_nlp_rows[hypRowIndex];
       part.hyp_orig = hypNlpPart.token;
       if (!hypNlpPart.ts.empty() && !hypNlpPart.endTs.empty()) {
@@ -329,7 +329,7 @@ vector<Stitching> make_stitches(wer_alignment &alignment, vector<RawCtmRecord> h
       }
     }
 
-    if (!one_best_tokens.empty()) {
+    if (hypRowIndex < (int)one_best_tokens.size()) {
       auto token = one_best_tokens[hypRowIndex];
       part.hyp_orig = token;
 
@@ -456,6 +456,10 @@ void align_stitches_to_nlp(NlpFstLoader& refLoader, vector<Stitching> &stitches)
       }
     }
 
+    // a label that comes back later can claim more rows than there are left
+    classLabelRowsInNlp = std::min(classLabelRowsInNlp, nlpMaxRow - nlpRowIndex);
+    classLabelRowsInStitches = std::min(classLabelRowsInStitches, numStitches - alignedTokensIndex);
+
     // handling various alignment cases:
 
     // one row for both, easy peasy...
-- 
2.43.0


From 5895e4082decca4e642b128baa4aa1e11dd83624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 22/32] fix: report a reference or hypothesis without a
 complete path instead of crashing

---
 src/fstalign.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 1dfa2b7..003b307 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -201,6 +201,9 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
     best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);
   } else if (alignerOptions.composition_approach == "adapted") {
     RmEpsilon(&refFst, true);
+    if (refFst.Start() == fst::kNoStateId || hypFst.Start() == fst::kNoStateId) {
+      throw std::runtime_error("there is no complete path through the reference or the hypothesis");
+    }
     ReverseOLabelCompare<StdArc> comparer;
     ArcSort(&refFst, comparer);
     AdaptedCompositionFst composed_fst(refFst, hypFst, symbol);
-- 
2.43.0


From 06db56a7152d13c959039829258de5f218bd31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 23/32] fix: label tables large enough for symbol tables whose
 ids have gaps

---
 src/AdaptedComposition.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index 2881d34..39ea285 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -417,13 +417,13 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
 void AdaptedCompositionFst::SetSymbols(fst::SymbolTable *symbols) {
   symbols_ = symbols;
   synonyms_label_ids.clear();
-  synonyms_label_ids.resize(symbols->NumSymbols(), false);
+  synonyms_label_ids.resize(symbols->AvailableKey(), false);
 
   entity_label_ids.clear();
-  entity_label_ids.resize(symbols->NumSymbols(), false);
+  entity_label_ids.resize(symbols->AvailableKey(), false);
 
   // mostly for optimization purpose
-  logger_->debug("{}:{} we created 2 vector<bool> of {} items", __FILE__, __LINE__, symbols->NumSymbols());
+  logger_->debug("{}:{} we created 2 vector<bool> of {} items", __FILE__, __LINE__, symbols->AvailableKey());
 
   for (SymbolTableIterator siter(*symbols); !siter.Done(); siter.Next()) {
     int64 sid = siter.Value();
-- 
2.43.0


From 7c44a2ea822ade4f2ae2a8d5490b82a79455b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 24/32] fix: standard composition for symbol files that do not
 list the ids in order

---
 src/StandardComposition.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/StandardComposition.cpp b/src/StandardComposition.cpp
index ee6d03e..df19a38 100644
--- a/src/StandardComposition.cpp
+++ b/src/StandardComposition.cpp
@@ -35,8 +35,13 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
   halfEdit2.SetFinal(0, 0);
   halfEdit2.AddArc(0, StdArc(del_label_id_, 0, deletion_cost / 2, 0));
 
+  // the composition needs the arcs sorted by label, in whatever order the symbols were declared
+  std::set<int64> symbol_ids;
   for (SymbolTableIterator siter(*symbols_); !siter.Done(); siter.Next()) {
-    int64 sid = siter.Value();
+    symbol_ids.insert(siter.Value());
+  }
+
+  for (int64 sid : symbol_ids) {
     if (sid != 0 && sid != ins_label_id_ && sid != del_label_id_ && sid != sub_label_id_) {
       auto sym_tk = symbols_->Find(sid);
       bool isClassLabel = isEntityLabel(sym_tk);
-- 
2.43.0


From ac8e1d03b315ee76f314043b5ec40d761e9e6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:05 +0000
Subject: [PATCH 25/32] fix: let the adapted composition delete a matching word
 when the hypothesis is a lattice

---
 src/AdaptedComposition.cpp | 6 +++---
 src/AdaptedComposition.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index 39ea285..731f4ea 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -13,7 +13,7 @@ AdaptedComposition.cpp
 #include "logging.h"
 
 AdaptedCompositionFst::AdaptedCompositionFst(const fst::StdFst &fstA, const fst::StdFst &fstB)
-    : symbols_{NULL}, fstA_{fstA}, fstB_{fstB}, has_alternatives_{HasAlternatives(fstA)} {
+    : symbols_{NULL}, fstA_{fstA}, fstB_{fstB}, has_alternatives_{HasAlternatives(fstA) || HasAlternatives(fstB)} {
   logger_ = logger::GetOrCreateLogger("AdaptedCompositionFst");
   logger_->set_level(spdlog::level::info);
 #if TRACE
@@ -22,7 +22,7 @@ AdaptedCompositionFst::AdaptedCompositionFst(const fst::StdFst &fstA, const fst:
 }
 
 AdaptedCompositionFst::AdaptedCompositionFst(const fst::StdFst &fstA, const fst::StdFst &fstB, SymbolTable &symbols)
-    : fstA_{fstA}, fstB_{fstB}, has_alternatives_{HasAlternatives(fstA)} {
+    : fstA_{fstA}, fstB_{fstB}, has_alternatives_{HasAlternatives(fstA) || HasAlternatives(fstB)} {
   logger_ = logger::GetOrCreateLogger("AdaptedCompositionFst");
   logger_->set_level(spdlog::level::info);
 #if TRACE
@@ -365,7 +365,7 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
       }
     }
 
-    // a word that matches is only worth deleting when there are several ways to read the reference
+    // a word that matches is only worth deleting when there are several ways to read the inputs
     if (num_match == 0 || weightA < 0 || has_alternatives_) {
       // let's add a potential deletion
       // TODO: we can be more clever here
diff --git a/src/AdaptedComposition.h b/src/AdaptedComposition.h
index a5c54fd..d7b0d30 100644
--- a/src/AdaptedComposition.h
+++ b/src/AdaptedComposition.h
@@ -58,7 +58,7 @@ class AdaptedCompositionFst : public IComposition {
   const fst::StdFst &fstA_;
   const fst::StdFst &fstB_;
 
-  // the reference can be read in more than one way (synonyms, normalizations, ...)
+  // the inputs can be read in more than one way (synonyms, normalizations, lattices, ...)
   const bool has_alternatives_;
 
   static bool HasAlternatives(const fst::StdFst &fst);
-- 
2.43.0


From 7685a637e5429823eb427428c1753a713f011032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 26/32] fix: epsilon arcs of a lattice hypothesis cost nothing
 in the adapted composition

---
 src/fstalign.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 003b307..3f222d6 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -12,6 +12,7 @@ fstalign.cpp
 #include <spdlog/fmt/fmt.h>
 
 #include "AdaptedComposition.h"
+#include "FstFileLoader.h"
 #include "OneBestFstLoader.h"
 #include "StandardComposition.h"
 #include "Walker.h"
@@ -201,6 +202,10 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
     best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);
   } else if (alignerOptions.composition_approach == "adapted") {
     RmEpsilon(&refFst, true);
+    if (dynamic_cast<FstFileLoader *>(&hypLoader)) {
+      // the paths of a lattice compete by their words, its epsilon arcs cost nothing
+      RmEpsilon(&hypFst, true);
+    }
     if (refFst.Start() == fst::kNoStateId || hypFst.Start() == fst::kNoStateId) {
       throw std::runtime_error("there is no complete path through the reference or the hypothesis");
     }
-- 
2.43.0


From 85b64b7f6912a20b70ca5823ddae32d3db686215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 27/32] fix: a final state with arcs is a choice for the
 adapted composition too

---
 src/AdaptedComposition.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index 731f4ea..a0be2a4 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -40,7 +40,9 @@ AdaptedCompositionFst::~AdaptedCompositionFst() {}
 
 bool AdaptedCompositionFst::HasAlternatives(const fst::StdFst &fst) {
   for (StateIterator<StdFst> siter(fst); !siter.Done(); siter.Next()) {
-    if (fst.NumArcs(siter.Value()) > 1) {
+    // (a final state that has arcs as well is a choice between stopping and going on)
+    bool is_final = fst.Final(siter.Value()) != StdArc::Weight::Zero();
+    if (fst.NumArcs(siter.Value()) + (is_final ? 1 : 0) > 1) {
       return true;
     }
   }
-- 
2.43.0


From 5f48e88aa1cdd1ff98510ef05aefdd160a2392c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 28/32] fix: a punctuation mark inside an entity doesn't start
 a new occurrence of it

---
 src/Nlp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 5b6fd3f..6ff4aaf 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -85,7 +85,12 @@ NlpFstLoader::NlpFstLoader(std::vector<RawNlpRecord> &records, Json::Value norma
       mToken.push_back(curr_tk);
       mSpeakers.push_back(speaker);
     }
-    if (use_punctuation && punctuation != "") {
+    bool label_goes_on = processLabels && curr_label != "" && &row != &records.back() && (&row + 1)->best_label == curr_label;
+    if (use_punctuation && punctuation != "" && label_goes_on) {
+      // a mark inside an entity belongs to the words of the entity, the next row isn't a new occurrence of the label
+      int last_idx = mJsonNorm[curr_label_id]["candidates"].size() - 1;
+      mJsonNorm[curr_label_id]["candidates"][last_idx]["verbalization"].append(punctuation);
+    } else if (use_punctuation && punctuation != "") {
       mToken.push_back(punctuation);
       mSpeakers.push_back(speaker);
       RawNlpRecord punc_row;
-- 
2.43.0


From 285687eb3602574a7c9ade21aaa82df0f9298202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 29/32] fix: report an error when an output file can't be
 written completely

---
 src/fstalign.cpp | 2 ++
 src/main.cpp     | 2 ++
 src/wer.cpp      | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 3f222d6..1109e21 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -708,6 +708,8 @@ void HandleWer(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine &engine
       ofstream nlp_ostream(output_nlp);
       if (!nlp_ostream.is_open()) throw std::runtime_error("Cannot open output file " + output_nlp);
       write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp);
+      nlp_ostream.close();
+      if (!nlp_ostream) throw std::runtime_error("Cannot write output file " + output_nlp);
     }
   }
 
diff --git a/src/main.cpp b/src/main.cpp
index 84f46aa..deff02f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -206,6 +206,7 @@ int main(int argc, char **argv) {
 
     output_nlp_file.flush();
     output_nlp_file.close();
+    if (!output_nlp_file) throw std::runtime_error("Cannot write output file " + output_nlp);
 
   } else {
     console->error("The command {} isn't implemented yet", command);
@@ -220,6 +221,7 @@ int main(int argc, char **argv) {
     if (!jsonFile.is_open()) throw std::runtime_error("Cannot open output file " + output_json_log);
     jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;
     jsonFile.close();
+    if (!jsonFile) throw std::runtime_error("Cannot write output file " + output_json_log);
   }
 
   console->info("done");
diff --git a/src/wer.cpp b/src/wer.cpp
index 43ba661..e31a02f 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -606,6 +606,7 @@ void WriteSbs(wer_alignment &topAlignment, const vector<Stitching>& stitches, st
   }
 
   myfile.close();
+  if (!myfile) throw std::runtime_error("Cannot write output file " + sbs_filename);
 }
 
 void JsonLogUnigramBigramStats(wer_alignment &topAlignment) {
-- 
2.43.0


From bbcd978942fa5726bc3894f33d50fa18da8a9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:57 +0000
Subject: [PATCH 30/32] fix: refuse an FST whose labels are not in the symbols
 file

---
 src/FstFileLoader.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/FstFileLoader.cpp b/src/FstFileLoader.cpp
index 5cf5bc5..55cb56a 100644
--- a/src/FstFileLoader.cpp
+++ b/src/FstFileLoader.cpp
@@ -12,6 +12,15 @@ fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, st
   fst::StdVectorFst* transducer = fst::StdVectorFst::Read(filename_);
   if (transducer == nullptr) throw std::runtime_error("Cannot read the input fst");
   logger->info("Total FST has {} states.", transducer->NumStates());
+  for (fst::StateIterator<fst::StdVectorFst> siter(*transducer); !siter.Done(); siter.Next()) {
+    for (fst::ArcIterator<fst::StdVectorFst> aiter(*transducer, siter.Value()); !aiter.Done(); aiter.Next()) {
+      for (int label : {aiter.Value().ilabel, aiter.Value().olabel}) {
+        if (label != 0 && !symbol.Member(label)) {
+          throw std::runtime_error("label " + std::to_string(label) + " of " + filename_ + " is not in the symbols file");
+        }
+      }
+    }
+  }
   return (*transducer);
 }
 
-- 
2.43.0


From cc7ecc3361a4611c5e28d7882fd31c4723574975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 31/32] fix: the test data generator selected no word when the
 last selection had ended at the last word

---
 tools/generate_wer_test_data.pl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/generate_wer_test_data.pl b/tools/generate_wer_test_data.pl
index 6d7b856..eac94ae 100644
--- a/tools/generate_wer_test_data.pl
+++ b/tools/generate_wer_test_data.pl
@@ -60,6 +60,8 @@ if(!defined($in_ref)){
     $ref_length = scalar(@ref_words);
 }
 
+die "substitutions need at least two different words!\n" if($sub_fract > 0 && keys(%words) < 2);
+
 my $num_ins = 0;
 my $num_del = 0;
 my $num_sub = 0;
@@ -173,10 +175,11 @@ sub select_word {
     my $w;
 
     my $cur_sum = 0;
+    keys %words;    # start over, the last selection stopped somewhere in the middle
     while ( my ( $key, $value ) = each %words ) {
         $w = $key;
         $cur_sum += $value;
-        if($r <= $cur_sum){
+        if($r < $cur_sum){
             last;
         }
     }
-- 
2.43.0


From 05355bc6900fd0dac59bda7e3152fa498c5d4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 32/32] fix: an alignment whose every path was pruned away
 ended the program, now the search is repeated with more candidates

---
 src/fstalign.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 1109e21..cd35620 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -195,11 +195,19 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   }
 
   vector<wer_alignment> best_alignments;
-  Walker walker;
-  walker.pruningHeapSizeTarget = alignerOptions.heapPruningTarget;
+  auto walk = [&](IComposition &composed_fst) {
+    // when every path to the end has been pruned away, we look again with more candidates
+    vector<wer_alignment> alignments;
+    for (int scale = 1; scale <= 1000 && alignments.empty(); scale *= 10) {
+      Walker walker;
+      walker.pruningHeapSizeTarget = alignerOptions.heapPruningTarget * scale;
+      alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);
+    }
+    return alignments;
+  };
   if (alignerOptions.composition_approach == "standard") {
     StandardCompositionFst composed_fst(refFst, hypFst, symbol);
-    best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);
+    best_alignments = walk(composed_fst);
   } else if (alignerOptions.composition_approach == "adapted") {
     RmEpsilon(&refFst, true);
     if (dynamic_cast<FstFileLoader *>(&hypLoader)) {
@@ -213,7 +221,7 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
     ArcSort(&refFst, comparer);
     AdaptedCompositionFst composed_fst(refFst, hypFst, symbol);
     // composed_fst.DebugComposedGraph();
-    best_alignments = walker.walkComposed(composed_fst, symbol, options, alignerOptions.numBests);
+    best_alignments = walk(composed_fst);
   } else {
     throw std::runtime_error("invalid composition approach specified");
   }
-- 
2.43.0

