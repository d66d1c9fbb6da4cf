From a639468dd53bed91473b4f76514438db4f96268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 1/8] fix: grow the char buffer in
 FzfParser::parse_not_extended

Queries longer than 64 characters panicked with an out of bounds index.
---
 src/metrics/fzf/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..a68408f 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,12 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        let max_chars = query.len();
+
+        if self.chars.len() < max_chars {
+            self.chars.resize(max_chars, char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From 2eb232fee67032e0da2713e718043b27a1c3be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 2/8] fix: don't drop the inversion of a lone inverse fuzzy
 pattern

`!'foo` was turned into a non-extended query, which ignores `is_inverse`,
so it matched exactly the candidates it should have excluded.
---
 src/metrics/fzf/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..8fc0697 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -49,7 +49,8 @@ impl<'a> FzfQuery<'a> {
     #[inline]
     pub(super) fn new_extended(conditions: &'a [Condition<'a>]) -> Self {
         // If there's only one condition with a single pattern, and that
-        // pattern is fuzzy, then we can use the non-extended search mode.
+        // pattern is fuzzy and not inverted, then we can use the non-extended
+        // search mode.
         if conditions.len() == 1 {
             let mut patterns = conditions[0].iter();
 
@@ -59,6 +60,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From a43684651a67fc72586943d59edd09f65d211cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 3/8] fix: leave the ranges buffer untouched if a later
 condition doesn't match

The docs of Metric::distance_and_ranges say that the buffer is left untouched
if the candidate doesn't match, but the ranges of the conditions preceding the
first one that fails were left in it.
---
 src/matched_ranges.rs  |  7 +++++++
 src/metrics/fzf/fzf.rs | 13 +++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..82e6524 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -59,6 +59,13 @@ impl<'a> MatchedRanges<'a> {
         self.ranges[self.initial_len..].binary_search_by(fun)
     }
 
+    /// Removes all the ranges inserted so far, leaving the ones that were
+    /// already in the buffer untouched.
+    #[inline(always)]
+    pub(crate) fn clear(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..a626e80 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,18 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let score = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    });
+
+                    let Some(score) = score else {
+                        // The previous conditions might've already added
+                        // their ranges.
+                        ranges.clear();
+                        return None;
+                    };
+
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From 4ff794995bc08c3a6172c6eef0b751f7680228c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 4/8] fix: don't lose coverage when a matched range spans
 existing ones

Inserting a range that reaches past the end of the range it's merged with, or
past more than one existing range, dropped the part that stuck out: `'b 'abc`
on "abc" reported 0..2 instead of 0..3.
---
 src/matched_ranges.rs | 44 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 82e6524..678ecad 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -59,6 +59,21 @@ impl<'a> MatchedRanges<'a> {
         self.ranges[self.initial_len..].binary_search_by(fun)
     }
 
+    /// Extends the range at `idx` so that it ends at or after `end`, merging
+    /// it with all the ranges following it that it reaches.
+    #[inline(always)]
+    fn extend_to(&mut self, idx: usize, end: usize) {
+        let mut end = self.ranges[self.initial_len + idx].end.max(end);
+
+        while idx + 1 < self.len()
+            && self.ranges[self.initial_len + idx + 1].start <= end
+        {
+            end = self.remove(idx + 1).end.max(end);
+        }
+
+        self.ranges[self.initial_len + idx].end = end;
+    }
+
     /// Removes all the ranges inserted so far, leaving the ones that were
     /// already in the buffer untouched.
     #[inline(always)]
@@ -82,29 +97,7 @@ impl<'a> MatchedRanges<'a> {
 
             // The range at `idx` and the new range have the same start.
             Ok(idx) => {
-                let (range, next_range) = {
-                    let (left, right) = self.split_at_mut(idx + 1);
-                    (&mut left[idx], right.get_mut(0))
-                };
-
-                if range.end >= new_range.end {
-                    // The new range is completely contained within this
-                    // existing range.
-                    return;
-                }
-
-                if let Some(next_range) = next_range {
-                    if new_range.end >= next_range.start {
-                        // The new range fills the gap between this range and
-                        // the next one.
-                        range.end = next_range.end;
-                        self.remove(idx + 1);
-                        return;
-                    }
-                }
-
-                range.end = new_range.end;
-
+                self.extend_to(idx, new_range.end);
                 return;
             },
         };
@@ -118,6 +111,7 @@ impl<'a> MatchedRanges<'a> {
 
             if new_range.end >= first_range.start {
                 first_range.start = new_range.start;
+                self.extend_to(0, new_range.end);
             } else {
                 self.insert_at(0, new_range);
             }
@@ -152,8 +146,7 @@ impl<'a> MatchedRanges<'a> {
             // ------   ------    =>    ---------------
             //     xxxxxxx
             (true, true) => {
-                prev_range.end = next_range.end;
-                self.remove(insert_idx);
+                self.extend_to(insert_idx - 1, new_range.end);
             },
 
             // The new range starts within an existing range but ends before
@@ -173,6 +166,7 @@ impl<'a> MatchedRanges<'a> {
             //         xxxx
             (false, true) => {
                 next_range.start = new_range.start;
+                self.extend_to(insert_idx, new_range.end);
             },
 
             // The new range is strictly within an existing gap, so we just
-- 
2.43.0


From 6231107acf0f49294f678b5d30f7cc303b717a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 5/8] fix: use the preceding char's class when restarting an
 exact match

After the first occurrence (or a partial one) the search restarts from an
earlier offset, but `prev_class` still was the class of some later character,
so the bonus of the next occurrence was wrong and the wrong occurrence could
be picked: `'a` on "XaA" picked the lowercase letter.
---
 src/metrics/fzf/fzf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index a626e80..3d9abc9 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -207,11 +207,15 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
+        let mut prev_class = if start_offset == 0 {
+            scheme.initial_char_class
+        } else {
+            char_class(candidate.char(start_offset - 1), scheme)
+        };
+
         let current_start_offset = start_offset;
         let mut bonus_start = 0;
         let mut current_bonus: Score = 0;
-- 
2.43.0


From 8f3d14fdd3f2f015bf24e179bd712880c15f5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 6/8] fix: only look for FzfV2's best score in the matrix's
 last row

The maximum was taken over all the rows, so if the gap between two characters
of the query was long enough the score and the ranges were the ones of a prefix
of the query: "ab" on "a", 100 other characters, "b" only reported the "a".
---
 src/metrics/fzf/fzf_v2.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..19b8384 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -399,7 +399,7 @@ fn score<'scoring, 'consecutive>(
     let mut consecutive_matrix =
         consecutive_slab.alloc(matrix_width, matrix_height);
 
-    let (max_score, max_score_cell) = score_first_row(
+    score_first_row(
         scoring_matrix.row_mut(0),
         consecutive_matrix.row_mut(0),
         pattern.char(0),
@@ -414,8 +414,6 @@ fn score<'scoring, 'consecutive>(
         candidate,
         scheme,
         matches,
-        max_score,
-        max_score_cell,
     );
 
     (scoring_matrix, consecutive_matrix, max_score, max_score_cell)
@@ -429,13 +427,9 @@ fn score_first_row(
     first_pattern_char: char,
     candidate: &mut CandidateV2,
     scheme: &Scheme,
-) -> (Score, MatrixCell) {
-    let mut max_score: Score = 0;
-
+) {
     let mut prev_score: Score = 0;
 
-    let mut max_score_col: usize = 0;
-
     let mut column = 0;
 
     let mut penalty = penalty::GAP_START;
@@ -460,11 +454,6 @@ fn score_first_row(
 
         scores_first_row[column] = score;
 
-        if score > max_score {
-            max_score = score;
-            max_score_col = column;
-        }
-
         prev_score = score;
     }
 
@@ -474,8 +463,6 @@ fn score_first_row(
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
     }
-
-    (max_score, MatrixCell(max_score_col))
 }
 
 /// TODO: docs
@@ -487,11 +474,15 @@ fn score_remaining_rows(
     candidate: &mut CandidateV2,
     scheme: &Scheme,
     matches: &[usize],
-    mut max_score: Score,
-    mut max_score_cell: MatrixCell,
 ) -> (Score, MatrixCell) {
     let matrix_width = scores.width();
 
+    let last_row_idx = scores.height() - 1;
+
+    let mut max_score: Score = 0;
+
+    let mut max_score_cell = MatrixCell(last_row_idx * matrix_width);
+
     for row_idx in 1..scores.height() {
         let pattern_char = pattern.char(row_idx);
 
@@ -548,7 +539,9 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
-            if score > max_score {
+            // Only the last row's scores are of alignments including all the
+            // characters of the pattern.
+            if row_idx == last_row_idx && score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
             }
-- 
2.43.0


From de9e6354c22746741e36d08532e1e33772250cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 7/8] fix: don't let FzfV2's cell scores become negative

Scores are signed, so `saturating_sub` didn't clamp them to zero like it was
meant to, and a long enough gap cost more than starting over.
---
 src/metrics/fzf/fzf_v2.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 19b8384..098a689 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -438,7 +438,7 @@ fn score_first_row(
         penalty = penalty::GAP_START;
 
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -458,7 +458,7 @@ fn score_first_row(
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = (prev_score - penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
@@ -505,14 +505,14 @@ fn score_remaining_rows(
 
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = (score_left - penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
 
             column = char_offset;
 
-            let score_left = scores_row[column - 1].saturating_sub(penalty);
+            let score_left = scores_row[column - 1] - penalty;
 
             let mut score_up_left = prev_scores_row[column - 1] + bonus::MATCH;
 
@@ -553,7 +553,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = (score_left - penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0


From 4b735a6fb0bfe00cd6d6a395d6750e0e53d0c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 8/8] fix: use fzf's gap penalties after a match in FzfV2

The penalty of the first character after a match was the one left over from the
gap preceding that match, so "Ab" on "Aca/b" scored 40 instead of 38.
---
 src/metrics/fzf/fzf_v2.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 098a689..92db4a5 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -435,8 +435,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
@@ -455,6 +453,8 @@ fn score_first_row(
         scores_first_row[column] = score;
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
@@ -501,8 +501,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = (score_left - penalty).max(0);
@@ -549,6 +547,14 @@ fn score_remaining_rows(
             consecutives_row[column] = consecutive;
 
             scores_row[column] = score;
+
+            // If skipping this character was better than matching it then
+            // we're still in a gap.
+            penalty = if score_up_left < score_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
         }
 
         for col in column + 1..matrix_width {
-- 
2.43.0

