From 47d4fa6d4ebb7ab7cfeec8d79a960ad19cd58bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 01/18] fix: Match::operator!= called itself without end

---
 core/Match.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 7a33e4e..173e9cb 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -76,7 +76,7 @@ class Match {
   }
 
   bool operator!=(const Match& other) const {
-    return !(*this != other);
+    return !(*this == other);
   }
 
   static Match<RE, HE> MakeFalsePositive(const HE& hyp) {
-- 
2.43.0


From 795e8f734f7aca857be0e41dea7323310c9a192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 02/18] fix: Match copy assignment leaked its events and lost
 them on self-assignment

---
 core/Match.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 173e9cb..46df177 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -53,8 +53,9 @@ class Match {
   }
 
   Match& operator=(const Match& other) {
+    if (this == &other) return *this;
     error_ = other.error_;
-    ref_.release(); hyp_.release();
+    ref_.reset(); hyp_.reset();
     if (other.HasRef()) SetRef(other.GetRef());
     if (other.HasHyp()) SetHyp(other.GetHyp());
     return *this;
-- 
2.43.0


From eb604f8103d6b84ccc444b50fa698982a35b58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 03/18] fix: ScoredEvent::operator<= was the same as operator>=

---
 core/ScoredEvent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ScoredEvent.h b/core/ScoredEvent.h
index 269097f..d99c964 100644
--- a/core/ScoredEvent.h
+++ b/core/ScoredEvent.h
@@ -42,7 +42,7 @@ class ScoredEvent : public E {
   }
 
   virtual bool operator<=(const ScoredEvent& other) const {
-    return !(other > *this);
+    return !(*this > other);
   }
 
   virtual bool operator>=(const ScoredEvent& other) const {
-- 
2.43.0


From 75687e6a36e3d411ef81fa52bd5330f2c6e30282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 04/18] fix: MatchesSampler padded its samples with empty
 matches

---
 core/Bootstrapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 7cbc227..033603e 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -21,7 +21,7 @@ class MatchesSampler {
   void operator()(const Container &original, Container *sampled) {
     const size_t num_matches = original.size();
     std::uniform_int_distribution <size_t> mdist(0, num_matches - 1);
-    sampled->resize(num_matches);
+    sampled->clear();
     for (size_t i = 0; i < num_matches; ++i) {
       sampled->push_back(original[mdist(rng_)]);
     }
-- 
2.43.0


From e3732dcbf9fe6eb0d3fdb94a8baa2155efc95f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 05/18] fix: EventSet of boxes built from a range counted from
 an uninitialized size

---
 core/DocumentBoundingBoxEventSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/DocumentBoundingBoxEventSet.h b/core/DocumentBoundingBoxEventSet.h
index 9328867..341d0ea 100644
--- a/core/DocumentBoundingBoxEventSet.h
+++ b/core/DocumentBoundingBoxEventSet.h
@@ -36,7 +36,7 @@ class EventSet<E<Q, DocumentBoundingBox<T>>> {
   virtual ~EventSet() {}
 
   template <typename I>
-  EventSet(I begin, I end) {
+  EventSet(I begin, I end) : size_(0) {
     for (I it = begin; it != end; ++it) { Insert(*it); }
   }
 
-- 
2.43.0


From c86f57c45b9f7dbc772c1b828f2140f11c7ebeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 06/18] fix: options accepted empty, incomplete and out of
 range numbers

---
 cmd/Option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Option.h b/cmd/Option.h
index 6472c62..68f20d9 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -52,7 +52,7 @@ class Option : public BaseOption {
   bool Parse(const std::string &str) override {
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
-    return iss.eof();
+    return !iss.fail() && iss.eof();
   }
 
   const std::string& Name() const override {
-- 
2.43.0


From 319e8c8fb6351609625cb600089eec3e502201a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 07/18] fix: unsigned options silently wrapped negative numbers
 around

---
 cmd/Option.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/Option.h b/cmd/Option.h
index 68f20d9..4007d3a 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -50,6 +50,10 @@ class Option : public BaseOption {
   }
 
   bool Parse(const std::string &str) override {
+    // Streams wrap around negative numbers when reading unsigned types.
+    if (std::is_unsigned<T>::value && !str.empty() && str[0] == '-') {
+      return false;
+    }
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
     return !iss.fail() && iss.eof();
-- 
2.43.0


From f98367edb362b4de32de38aefff6b1601f29247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 08/18] fix: any character was accepted in place of the second
 dash of an option

---
 cmd/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Parser.h b/cmd/Parser.h
index cc48590..43aa5b6 100644
--- a/cmd/Parser.h
+++ b/cmd/Parser.h
@@ -102,7 +102,7 @@ class Parser {
       if (arg == "--help") { show_help = true; continue; }
       const std::string opt_name = arg.substr(2);
       auto opt_it = opts_.find(opt_name);
-      if (opt_it == opts_.end()) {
+      if (arg[1] != '-' || opt_it == opts_.end()) {
         std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
         return false;
       }
-- 
2.43.0


From b64cf06e9798f7bd674732ec1767906ebb85471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 09/18] fix: StringToIntMapper over 64-bit unsigned ids could
 not store anything

---
 mapper/StringToIntMapper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 267ff0e..5897020 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -40,18 +40,18 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     if (it != impl_->end()) {
       return it->second;
     } else {
-      if (impl_->size() < kMaxSize) {
+      if (impl_->size() <= kMaxId) {
         return impl_->emplace_hint(it, input, impl_->size())->second;
       } else {
         throw std::range_error(
-            "Max size reached (" + std::to_string(kMaxSize) + ")");
+            "Max size reached (" + std::to_string(impl_->size()) + ")");
       }
     }
   }
 
  private:
-  static constexpr size_t kMaxSize =
-      1 + static_cast<size_t>(std::numeric_limits<Int>::max());
+  static constexpr size_t kMaxId =
+      static_cast<size_t>(std::numeric_limits<Int>::max());
 
   Impl *impl_;
   bool own_;
-- 
2.43.0


From 76552b996a28d732ce1e50595ff5d962c5e147f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 10/18] fix: bootstrap intervals read out of bounds with alpha
 = 0 or no samples

---
 core/Bootstrapping.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 033603e..0996e3c 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -76,9 +76,17 @@ double ComputePercentileBootstrapCI(
     // Store the difference w.r.t. the observed statistic
     statistics_diffs.push_back(sample_statistic - observed_statistic);
   }
+  if (statistics_diffs.empty()) {
+    *lower_bound = *upper_bound = observed_statistic;
+    return observed_statistic;
+  }
   std::sort(statistics_diffs.begin(), statistics_diffs.end());
-  const auto li = (size_t)((1.0 - alpha * 0.5) * repetitions);
-  const auto ui = (size_t)((      alpha * 0.5) * repetitions);
+  // The positions must lie in the vector for any alpha, e.g. alpha = 0.
+  const double last = repetitions - 1;
+  const auto li = (size_t)std::max(
+      0.0, std::min(last, (1.0 - alpha * 0.5) * repetitions));
+  const auto ui = (size_t)std::max(
+      0.0, std::min(last, (      alpha * 0.5) * repetitions));
   *lower_bound = observed_statistic - statistics_diffs[li];
   *upper_bound = observed_statistic - statistics_diffs[ui];
   return observed_statistic;
-- 
2.43.0


From e50ab71795fede2737b9e05a9ac38c28fb892206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 11/18] fix: an empty query set (or groups) file kept all the
 queries

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4b9bb0e..e9fb412 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -347,7 +347,7 @@ class GenericKwsEvalTool {
                 << querygroups_filename << "\"" << std::endl;
     }
 
-    if (!query2group.empty()) {
+    if (!queryset_filename.empty() || !querygroups_filename.empty()) {
       // Filter out reference events.
       const size_t num_ref_events = ref_events.size();
       filter_events(query2group, &ref_events);
-- 
2.43.0


From fc33b96121141f709859fb5bf2b6943fc829355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 12/18] fix: read errors in the query set and groups files were
 ignored

---
 tools/GenericKwsEvalTool.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index e9fb412..48b3d95 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -316,6 +316,11 @@ class GenericKwsEvalTool {
         auto q = (*query_mapper_)(qt);
         query2group[q] = q;
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Failed reading file \"" << queryset_filename
+                  << "\"!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
@@ -341,6 +346,11 @@ class GenericKwsEvalTool {
           query2group[fields[i]] = fields[0];
         }
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Failed reading file \"" << querygroups_filename
+                  << "\"!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
-- 
2.43.0


From db2dc84f5928f04a38569a8222d51bb164601f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 13/18] fix: mean recall-precision curve was NaN when there are
 no queries

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 48b3d95..d7c6baa 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -146,7 +146,7 @@ class GenericKwsEvalTool {
       for (size_t q = 1; q <= NQ; ++q) {
         s += sampled_pr[q][i];
       }
-      sampled_pr[0].push_back(s / NQ);
+      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
     }
 
     core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);
-- 
2.43.0


From a0794de36d45ff47a6cfedc64640751cf89491dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 14/18] fix: write errors in the dump of the matches were
 ignored

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index d7c6baa..6aaedd6 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -420,6 +420,11 @@ class GenericKwsEvalTool {
         mfs << "## " << m << std::endl;
       }
       mfs.close();
+      if (!mfs) {
+        std::cerr << "ERROR: Failed writing dump matches file \""
+                  << matches_filename << "\"!" << std::endl;
+        return 1;
+      }
     }
 
     {
-- 
2.43.0


From c3d15d6738b77f7485ee09f13ade2fc6a6f67d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 15/18] fix: write errors in the reported results were ignored

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 6aaedd6..ed9aa6a 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -487,6 +487,11 @@ class GenericKwsEvalTool {
           interpolated_precision, trapezoid_integral);
     }
 
+    if (!std::cout.flush()) {
+      std::cerr << "ERROR: Failed writing the results!" << std::endl;
+      return 1;
+    }
+
     return 0;
   }
 
-- 
2.43.0


From 13ab884924de0a7a1d71fb55c5ad12da0b8bbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 16/18] fix: read errors in the standard input were taken as
 its end

---
 tools/GenericKwsEvalTool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index ed9aa6a..7164b4d 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -1,6 +1,7 @@
 #ifndef TOOLS_GENERICKWSEVALTOOL_H_
 #define TOOLS_GENERICKWSEVALTOOL_H_
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 #include <string>
@@ -284,8 +285,9 @@ class GenericKwsEvalTool {
 
     // Read hypothesis events
     std::vector<HypEvent> hyp_events;
+    // Note: std::cin reports a read error as if it was the end of the file.
     if (!(hyp_filename.empty()
-          ? hyp_reader_->Read(&std::cin, &hyp_events)
+          ? hyp_reader_->Read(&std::cin, &hyp_events) && !std::ferror(stdin)
           : hyp_reader_->Read(hyp_filename, &hyp_events))) {
       if (argc == 2) {
         std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
-- 
2.43.0


From 1fb33f386fb2521aed996aca27f625249b0e8aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 17/18] fix: malformed box coordinates were split or wrapped
 around instead of rejected

---
 core/BoundingBox.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 36b2228..cd8f7a1 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -1,8 +1,10 @@
 #ifndef CORE_BOUNDINGBOX_H_
 #define CORE_BOUNDINGBOX_H_
 
+#include <cctype>
 #include <cmath>
 #include <iostream>
+#include <type_traits>
 
 namespace kws {
 namespace core {
@@ -62,9 +64,28 @@ struct BoundingBox {
   }
 };
 
+// Read a number which must be a whole word: "4.5" is not the integer 4 followed
+// by something else, and a negative number is not an unsigned one.
+template <typename T>
+std::istream& ReadNumber(std::istream& is, T* number) {
+  is >> std::ws;
+  if (std::is_unsigned<T>::value && is.good() && is.peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+  }
+  is >> *number;
+  if (is.good() && is.peek() != std::istream::traits_type::eof() &&
+      !std::isspace(is.peek())) {
+    is.setstate(std::ios_base::failbit);
+  }
+  return is;
+}
+
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
-  is >> bb.x >> bb.y >> bb.w >> bb.h;
+  ReadNumber(is, &bb.x);
+  ReadNumber(is, &bb.y);
+  ReadNumber(is, &bb.w);
+  ReadNumber(is, &bb.h);
   return is;
 }
 
-- 
2.43.0


From dbb460a7cad80ae39cde9272fd8d3347c9f21fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 18/18] fix: copy assignment of StringToIntMapper deleted the
 numbering twice

---
 mapper/StringToIntMapper.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 5897020..cd82a1d 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -35,6 +35,19 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     }
   }
 
+  // As with the copy constructor, the result shares the other's numbering and
+  // does not own it.
+  StringToIntMapper& operator=(const StringToIntMapper &other) {
+    if (impl_ != other.impl_) {
+      if (own_) {
+        delete impl_;
+      }
+      impl_ = other.impl_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   OutputType operator()(const InputType &input) override {
     const auto it = impl_->find(input);
     if (it != impl_->end()) {
-- 
2.43.0

