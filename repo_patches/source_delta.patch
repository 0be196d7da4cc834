From 8bc2e471929b8da5c1ed87cbe75e55b844ca43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 01/29] fix: forget a recycled clause id in occurrence lists of
 assigned vars

Eliminator::remove_cid_occur skipped the lists of vars assigned in the
meantime. When the clause id was recycled for a clause holding the same
literal, add_cid_occur pushed it twice (and panicked with debug
assertions on).
---
 src/processor/simplify.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index f62dbdb..39d15f4 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -389,6 +389,14 @@ impl Eliminator {
             if asg.assign(l.vi()).is_none() {
                 self.remove_lit_occur(asg, *l, cid);
                 self.enqueue_var(asg, l.vi(), true);
+            } else {
+                // `cid` can be recycled, so even an assigned var must forget it.
+                let w = &mut self[l.vi()];
+                if bool::from(*l) {
+                    w.pos_occurs.delete_unstable(|&c| c == cid);
+                } else {
+                    w.neg_occurs.delete_unstable(|&c| c == cid);
+                }
             }
         }
     }
-- 
2.43.0


From 04767a0078f2c568496250855a7fb871f1c06385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 02/29] verif: seams for verification harnesses, under --cfg
 splr_verif

Harness hooks: override heuristic decisions and clock readings, and observe
the solver at fixed points of the search. Compiled out by default.
---
 src/assign/select.rs   | 11 ++++++
 src/cdb/db.rs          |  5 +++
 src/lib.rs             |  3 ++
 src/solver/conflict.rs |  9 +++++
 src/solver/search.rs   |  4 +++
 src/solver/stage.rs    | 11 ++++++
 src/state.rs           |  7 ++++
 src/verif.rs           | 80 ++++++++++++++++++++++++++++++++++++++++++
 8 files changed, 130 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/assign/select.rs b/src/assign/select.rs
index 72daca6..6194507 100644
--- a/src/assign/select.rs
+++ b/src/assign/select.rs
@@ -128,6 +128,17 @@ impl VarSelectIF for AssignStack {
     }
     fn select_decision_literal(&mut self) -> Lit {
         let vi = self.select_var();
+        #[cfg(splr_verif)]
+        {
+            let natural = Lit::from((vi, self.var[vi].is(FlagVar::PHASE)));
+            let chosen = crate::verif::decide(self, natural);
+            if chosen.vi() != vi {
+                self.insert_heap(vi);
+            }
+            if chosen != natural {
+                return chosen;
+            }
+        }
         Lit::from((vi, self.var[vi].is(FlagVar::PHASE)))
     }
     fn update_order(&mut self, v: VarId) {
diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 650a669..da21eb9 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1069,6 +1069,11 @@ impl ClauseDBIF for ClauseDB {
                 continue;
             }
             alives += 1;
+            #[cfg(splr_verif)]
+            {
+                c.rank =
+                    crate::verif::choose(crate::verif::Choice::ReduceRank, c.rank as i64) as u16;
+            }
             if c.rank <= 4 {
                 continue;
             }
diff --git a/src/lib.rs b/src/lib.rs
index d1a107a..58a195d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::upper_case_acronyms)]
+#![allow(unexpected_cfgs)] // splr_verif
 /*!
 # A modern CDCL SAT solver in Rust
 
@@ -62,6 +63,8 @@ pub mod solver;
 pub mod state;
 /// Module `types` provides various building blocks, including some common traits.
 pub mod types;
+#[cfg(splr_verif)]
+pub mod verif;
 
 pub use {
     config::Config,
diff --git a/src/solver/conflict.rs b/src/solver/conflict.rs
index 66b30ee..2c12d95 100644
--- a/src/solver/conflict.rs
+++ b/src/solver/conflict.rs
@@ -185,6 +185,15 @@ pub fn handle_conflict(
     } else {
         None
     };
+    #[cfg(splr_verif)]
+    let bt_drift = {
+        let natural = bt_drift.is_some() as i64;
+        match crate::verif::choose(crate::verif::Choice::Deepen, natural) {
+            c if c == natural => bt_drift,
+            1 if assign_level > 0 => Some(false),
+            _ => None,
+        }
+    };
     if let Some(b) = bt_drift {
         if b {
             asg.cancel_until(conflicting_level - 1);
diff --git a/src/solver/search.rs b/src/solver/search.rs
index 1fa2c27..dd23e9c 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -235,6 +235,8 @@ fn search(
 
     state.stm.initialize(stage_size);
     while 0 < asg.derefer(assign::property::Tusize::NumUnassignedVar) || asg.remains() {
+        #[cfg(splr_verif)]
+        crate::verif::observe(crate::verif::Place::Loop, asg, cdb, state);
         if !asg.remains() {
             let lit = asg.select_decision_literal();
             asg.assign_by_decision(lit);
@@ -245,6 +247,8 @@ fn search(
         if asg.decision_level() == asg.root_level() {
             return Err(SolverError::RootLevelConflict(cc));
         }
+        #[cfg(splr_verif)]
+        crate::verif::observe(crate::verif::Place::Conflict, asg, cdb, state);
         asg.update_activity_tick();
         #[cfg(feature = "clause_rewarding")]
         cdb.update_activity_tick();
diff --git a/src/solver/stage.rs b/src/solver/stage.rs
index a48e50a..c0cc394 100644
--- a/src/solver/stage.rs
+++ b/src/solver/stage.rs
@@ -53,6 +53,9 @@ impl StageManager {
         }
     }
     pub fn initialize(&mut self, unit_size: usize) {
+        #[cfg(splr_verif)]
+        let unit_size =
+            crate::verif::choose(crate::verif::Choice::StageSize, unit_size as i64) as usize;
         self.cycle = 0;
         self.unit_size = unit_size;
         self.scale = 1;
@@ -97,6 +100,14 @@ impl StageManager {
         new_cycle.then_some(new_segment)
     }
     pub fn stage_ended(&self, now: usize) -> bool {
+        #[cfg(splr_verif)]
+        {
+            let natural = (self.end_of_stage == now) as i64;
+            let chosen = crate::verif::choose(crate::verif::Choice::StageEnd, natural);
+            if chosen != natural {
+                return chosen == 1;
+            }
+        }
         self.end_of_stage == now
     }
     /// returns the number of conflicts in the current stage
diff --git a/src/state.rs b/src/state.rs
index d5b9845..0720641 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -392,6 +392,13 @@ impl StateIF for State {
         Duration::from_secs(self.config.c_timeout as u64) < self.start.elapsed()
     }
     fn elapsed(&self) -> Option<f64> {
+        #[cfg(splr_verif)]
+        {
+            let chosen = crate::verif::choose(crate::verif::Choice::Elapsed, -1);
+            if 0 <= chosen {
+                return Some(chosen as f64 / 1000.0);
+            }
+        }
         Some(
             self.start.elapsed().as_secs_f64()
                 / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..0f06515
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,80 @@
+//! Seams for verification harnesses. Compiled only with `--cfg splr_verif`.
+//!
+//! A harness installs an *oracle*, which may override what a heuristic or the clock
+//! answered, and an *observer*, which is called at fixed points of the search with
+//! the whole state of the solver. Without them every function here returns the value
+//! it was given.
+use {
+    crate::{assign::AssignStack, cdb::ClauseDB, state::State, types::*},
+    std::cell::RefCell,
+};
+
+/// What is being decided.
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub enum Choice {
+    /// is it the end of a stage? (0 or 1)
+    StageEnd,
+    /// backtrack deeper than the asserting level? (0 or 1)
+    Deepen,
+    /// rank (LBD) of a learnt clause seen by the reduction
+    ReduceRank,
+    /// the clock, in thousandths of the time limit
+    Elapsed,
+    /// the number of conflicts in the first stage
+    StageSize,
+}
+
+/// Where the observer is called.
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+pub enum Place {
+    /// the head of the main loop of the search
+    Loop,
+    /// a conflict was found; it isn't analyzed yet
+    Conflict,
+}
+
+type Oracle = Box<dyn FnMut(Choice, i64) -> i64>;
+type Decider = Box<dyn FnMut(&AssignStack, Lit) -> Lit>;
+type Observer = Box<dyn FnMut(Place, &mut AssignStack, &mut ClauseDB, &mut State)>;
+
+thread_local! {
+    static ORACLE: RefCell<Option<Oracle>> = const { RefCell::new(None) };
+    static DECIDER: RefCell<Option<Decider>> = const { RefCell::new(None) };
+    static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
+}
+
+pub fn set_oracle(f: Option<Oracle>) {
+    ORACLE.with(|o| *o.borrow_mut() = f);
+}
+
+pub fn set_decider(f: Option<Decider>) {
+    DECIDER.with(|o| *o.borrow_mut() = f);
+}
+
+pub fn set_observer(f: Option<Observer>) {
+    OBSERVER.with(|o| *o.borrow_mut() = f);
+}
+
+/// return the oracle's answer, or `natural` without oracle.
+pub fn choose(what: Choice, natural: i64) -> i64 {
+    ORACLE.with(|o| match o.borrow_mut().as_mut() {
+        Some(f) => f(what, natural),
+        None => natural,
+    })
+}
+
+/// return the decider's answer, or `natural` without decider.
+pub fn decide(asg: &AssignStack, natural: Lit) -> Lit {
+    DECIDER.with(|o| match o.borrow_mut().as_mut() {
+        Some(f) => f(asg, natural),
+        None => natural,
+    })
+}
+
+pub fn observe(place: Place, asg: &mut AssignStack, cdb: &mut ClauseDB, state: &mut State) {
+    OBSERVER.with(|o| {
+        if let Some(f) = o.borrow_mut().as_mut() {
+            f(place, asg, cdb, state);
+        }
+    });
+}
-- 
2.43.0


From 37013bd5817736ce3fc558eda7e0180ceb03aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 03/29] fix: don't take every var as a pure literal if the
 eliminator is disabled

The occurrence lists are empty then, and 'solve' asserted all vars to be true.
So satisfiable formulas were reported as UNSAT.
---
 src/processor/simplify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 39d15f4..6581cca 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -309,7 +309,7 @@ impl EliminateIF for Eliminator {
     }
     fn stats(&self, vi: VarId) -> Option<(usize, usize)> {
         let w = &self[vi];
-        if w.aborted {
+        if !self.enable || w.aborted {
             None
         } else {
             Some((w.pos_occurs.len(), w.neg_occurs.len()))
-- 
2.43.0


From 8f9a52035fb78957bc2c97e8f21b951a028ad854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 04/29] fix: tell the number of added vars to eliminators

An Eliminator is built from 'state.cnf', which ignored 'add_var'. Simplification
accessed its tables out of their ranges if two or more vars were added.
---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index 0720641..1c61ac7 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -229,6 +229,7 @@ impl Instantiate for State {
     fn handle(&mut self, e: SolverEvent) {
         match e {
             SolverEvent::NewVar => {
+                self.cnf.num_of_variables += 1;
                 self.target.num_of_variables += 1;
             }
             SolverEvent::Assert(_) => (),
-- 
2.43.0


From fe5b960c8d2503210771b7e709abb1dfa16f9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 05/29] fix: read clauses by their terminators, not by lines

DIMACS CNF separates clauses by '0'. The loader dropped all the clauses on a
line but the first one, and took a part of a multi-line clause as a clause.
---
 src/solver/build.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index b47a399..c87f491 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -287,37 +287,35 @@ impl Solver {
         self.state.progress(&self.asg, &self.cdb);
         self.state.flush("Initialization phase: loading...");
         let mut buf = String::new();
+        let mut v: Vec<Lit> = Vec::new();
         loop {
             buf.clear();
-            let mut ends_zero = false;
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf.starts_with('c') => continue,
                 Ok(_) => {
-                    let iter = buf.split_whitespace();
-                    let mut v: Vec<Lit> = Vec::new();
-                    for s in iter {
+                    // A line may contain two or more clauses, and a clause may be
+                    // spread over lines. Only '0' terminates a clause.
+                    for s in buf.split_whitespace() {
                         match s.parse::<i32>() {
                             Ok(0) => {
-                                ends_zero = true;
-                                break;
+                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    return Err(SolverError::EmptyClause);
+                                }
+                                v.clear();
                             }
                             Ok(val) => v.push(Lit::from(val)),
                             Err(_) => (),
                         }
                     }
-                    if v.is_empty() {
-                        if ends_zero {
-                            return Err(SolverError::EmptyClause);
-                        }
-                        continue;
-                    } else if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
-                        return Err(SolverError::EmptyClause);
-                    }
                 }
                 Err(e) => panic!("{}", e),
             }
         }
+        // the last clause can lack its terminator.
+        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            return Err(SolverError::EmptyClause);
+        }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
         // s.state[Stat::NumBin] = s.cdb.iter().skip(1).filter(|c| c.len() == 2).count();
         Ok(self)
-- 
2.43.0


From 69984ab32ab6b206958ae0474610446df8e51214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 06/29] fix: reject an out-of-range literal in a CNF file

As documented, 'build' should return InvalidLiteral. But it accessed tables out
of their ranges, or ignored the token if it was too big for i32.
---
 src/solver/build.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index c87f491..471aeb9 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -304,8 +304,10 @@ impl Solver {
                                 }
                                 v.clear();
                             }
-                            Ok(val) => v.push(Lit::from(val)),
-                            Err(_) => (),
+                            Ok(val) if val.unsigned_abs() as usize <= self.asg.num_vars => {
+                                v.push(Lit::from(val));
+                            }
+                            _ => return Err(SolverError::InvalidLiteral),
                         }
                     }
                 }
-- 
2.43.0


From 40b69c9ef9849eab609c9dc020181ebfc87709a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 07/29] fix: stop reading a CNF at '%'

The files of SATLIB end with '%' and '0'. The last '0' was taken as an empty
clause and every SATLIB file was reported as UNSAT.
---
 src/solver/build.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 471aeb9..a8fdf2f 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -293,6 +293,8 @@ impl Solver {
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf.starts_with('c') => continue,
+                // the end of data in SATLIB format
+                Ok(_) if buf.starts_with('%') => break,
                 Ok(_) => {
                     // A line may contain two or more clauses, and a clause may be
                     // spread over lines. Only '0' terminates a clause.
-- 
2.43.0


From 9853b34c7a68454e6a29aafe6f7696a140f09944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 08/29] fix: report an unreadable CNF as IOError

A broken header, or a non UTF-8 sequence after the header, caused a panic.
---
 src/solver/build.rs | 2 +-
 src/types/cnf.rs    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index a8fdf2f..8ba277e 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -313,7 +313,7 @@ impl Solver {
                         }
                     }
                 }
-                Err(e) => panic!("{}", e),
+                Err(_) => return Err(SolverError::IOError),
             }
         }
         // the last clause can lack its terminator.
diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index f9145f1..98446bd 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -120,8 +120,8 @@ impl TryFrom<&Path> for CNFReader {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v;
                         nc = c;
-- 
2.43.0


From 673ef5af7ef19ca9c380c3b35a56dff5494db155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 09/29] fix: keep unit clauses in CNF::from_vec_i32

---
 src/cnf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c9090c7..3331ddf 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -97,6 +97,8 @@ impl CnfIf for CNF {
                         return Err(CNFOperationError::AddignConflictingAssingment);
                     }
                     cnf.assign.insert(l);
+                    cnf.cls_map.insert(ref_c.clone());
+                    cnf.clauses.push(ref_c.clone());
                 }
                 _ => {
                     let mut cc = ref_c.clone();
-- 
2.43.0


From e269c1f4b988d7ca6a8a407e1c6e7cdc0069fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 10/29] fix: don't dump an empty clause for a CNF without
 clauses

---
 src/cnf/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 3331ddf..e70b609 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -199,18 +199,17 @@ impl CnfIf for CNF {
     }
     fn dump_to_string(&self) -> String {
         format!(
-            "p cnf {} {}\n{} 0\n",
+            "p cnf {} {}\n{}",
             self.num_vars,
             self.clauses.len(),
             self.clauses
                 .iter()
                 .map(|cls| cls
                     .iter()
-                    .map(|ch| format!("{ch}"))
-                    .collect::<Vec<_>>()
-                    .join(" "))
-                .collect::<Vec<_>>()
-                .join(" 0\n"),
+                    .map(|ch| format!("{ch} "))
+                    .collect::<String>()
+                    + "0\n")
+                .collect::<String>(),
         )
     }
 }
-- 
2.43.0


From e9e3a0b9272caaba1a8a7342e3e2a12e4a3baa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 11/29] fix: read clauses by their terminators in CNF::load,
 and don't panic on ill-formed files

---
 src/cnf/mod.rs | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index e70b609..b86f1fd 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -122,39 +122,37 @@ impl CnfIf for CNF {
         let mut found_valid_header = false;
         let mut clause_extists_already = false;
         let mut cnf = CNF::default();
+        let mut vec: Vec<i32> = Vec::new();
         loop {
             buf.clear();
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf == "\n" => (),
                 Ok(_) if buf.starts_with('c') => (),
+                // the end of data in SATLIB format
+                Ok(_) if found_valid_header && buf.starts_with('%') => break,
                 Ok(_) if found_valid_header => {
-                    let mut vec: Vec<i32> = Vec::new();
-                    for seg in buf.split(' ') {
-                        if let Ok(l) = seg.parse::<i32>() {
-                            if l == 0 {
-                                break;
-                            }
-                            vec.push(l);
+                    // Only '0' terminates a clause.
+                    for seg in buf.split_whitespace() {
+                        match seg.parse::<i32>() {
+                            Ok(0) => match cnf.add_clause(std::mem::take(&mut vec)) {
+                                Ok(_) => num_clause += 1,
+                                Err(CNFOperationError::AddingClauseExists) => {
+                                    clause_extists_already = true
+                                }
+                                Err(e) => return Err(e),
+                            },
+                            Ok(l) => vec.push(l),
+                            Err(_) => return Err(CNFOperationError::ParsingCNF),
                         }
                     }
-                    debug_assert!(!vec.is_empty());
-                    if let Err(e) = cnf.add_clause(vec) {
-                        if e == CNFOperationError::AddingClauseExists {
-                            clause_extists_already = true;
-                        } else {
-                            return Err(e);
-                        }
-                    } else {
-                        num_clause += 1;
-                    }
                 }
                 Ok(_) => {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v as u32;
                         nc = c;
@@ -170,14 +168,22 @@ impl CnfIf for CNF {
         if !found_valid_header {
             return Err(CNFOperationError::ParsingCNF);
         }
+        // the last clause can lack its terminator.
+        if !vec.is_empty() {
+            match cnf.add_clause(vec) {
+                Ok(_) => num_clause += 1,
+                Err(CNFOperationError::AddingClauseExists) => clause_extists_already = true,
+                Err(e) => return Err(e),
+            }
+        }
         if cnf.num_vars() != nv {
             println!("Warning: there are less variables than its declaration.");
         }
         if clause_extists_already {
             assert_eq!(cnf.num_clauses(), num_clause);
             println!("Warning: there are less clauses than its declaration.");
-        } else if cnf.num_clauses() < TOO_MANY_CLAUSES {
-            assert_eq!(cnf.num_clauses(), nc);
+        } else if cnf.num_clauses() < TOO_MANY_CLAUSES && cnf.num_clauses() != nc {
+            return Err(CNFOperationError::ParsingCNF);
         }
         Ok(cnf)
     }
-- 
2.43.0


From 4950f91e13c878da35f1ebbc6e60cc109d8fcdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 12/29] fix: reject an out-of-range literal in
 inject_assignment

---
 src/solver/validate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index acdb66d..179c7b9 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -41,6 +41,9 @@ impl ValidateIF for Solver {
             return Err(SolverError::Inconsistent);
         }
         for i in vec {
+            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
+                return Err(SolverError::InvalidLiteral);
+            }
             self.asg.assign_at_root_level(Lit::from(*i))?;
         }
         Ok(())
-- 
2.43.0


From 5887ec6fa3651ff8de6cb0e47f4076095f0f42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 13/29] fix: save the results of a CNF found unsatisfiable
 while loading

---
 src/bin/splr.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index cc36b38..f091222 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -2,7 +2,8 @@
 /// SAT solver for Propositional Logic in Rust, which can't be compiled with feature 'no_IO'
 use {
     splr::{
-        Config, EmaIF, PropertyDereference, PropertyReference, SolverError, VERSION, assign,
+        CNFDescription, CNFReader, Config, EmaIF, Instantiate, PropertyDereference,
+        PropertyReference, SolverError, VERSION, assign,
         cdb::{self, ClauseDBIF},
         config::{self, CERTIFICATION_DEFAULT_FILENAME},
         solver::*,
@@ -85,11 +86,12 @@ fn main() {
     }
     let mut s = match Solver::build(&config) {
         Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {
-            println!(
-                "\x1B[1G\x1B[K{}: {}",
-                colored(Ok(false), config.no_color),
-                config.cnf_file.file_name().unwrap().to_string_lossy(),
-            );
+            // It was found without search. So only the results are left.
+            let cnf = CNFReader::try_from(config.cnf_file.as_path())
+                .map_or_else(|_| CNFDescription::default(), |r| r.cnf);
+            let mut s = Solver::instantiate(&config, &cnf);
+            print!("\x1B[1G\x1B[K");
+            save_result(&mut s, &Ok(Certificate::UNSAT), &cnf_file, ans_file);
             std::process::exit(20);
         }
         Err(e) => {
-- 
2.43.0


From 4582eff78fefc53a011992cb1ef9500e58d47d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 14/29] fix: don't round a time limit down to whole seconds

---
 src/state.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 1c61ac7..4ae5a9c 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -1,8 +1,8 @@
 /// Module `state` is a collection of internal data.
 #[cfg(feature = "platform_wasm")]
-use instant::{Duration, Instant};
+use instant::Instant;
 #[cfg(not(feature = "platform_wasm"))]
-use std::time::{Duration, Instant};
+use std::time::Instant;
 use {
     crate::{
         assign, cdb,
@@ -390,7 +390,7 @@ macro_rules! f {
 
 impl StateIF for State {
     fn is_timeout(&self) -> bool {
-        Duration::from_secs(self.config.c_timeout as u64) < self.start.elapsed()
+        self.config.c_timeout < self.start.elapsed().as_secs_f64()
     }
     fn elapsed(&self) -> Option<f64> {
         #[cfg(splr_verif)]
@@ -400,10 +400,7 @@ impl StateIF for State {
                 return Some(chosen as f64 / 1000.0);
             }
         }
-        Some(
-            self.start.elapsed().as_secs_f64()
-                / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),
-        )
+        Some(self.start.elapsed().as_secs_f64() / self.config.c_timeout)
     }
     fn progress_header(&mut self) {
         if !self.config.splr_interface || self.config.quiet_mode {
-- 
2.43.0


From adfbb15e254594094d76c37f1d63b8308439c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 15/29] fix: restart the Luby series with the stages

---
 src/solver/stage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/stage.rs b/src/solver/stage.rs
index c0cc394..8edb897 100644
--- a/src/solver/stage.rs
+++ b/src/solver/stage.rs
@@ -57,6 +57,7 @@ impl StageManager {
         let unit_size =
             crate::verif::choose(crate::verif::Choice::StageSize, unit_size as i64) as usize;
         self.cycle = 0;
+        self.luby_iter.reset();
         self.unit_size = unit_size;
         self.scale = 1;
         self.max_scale_of_segment = 1;
@@ -65,6 +66,7 @@ impl StageManager {
     }
     pub fn reset(&mut self) {
         self.cycle = 0;
+        self.luby_iter.reset();
         self.scale = 1;
         self.max_scale_of_segment = 1;
         self.end_of_stage = self.unit_size;
-- 
2.43.0


From 9a39bdcf934385d42bdc3a439881d84806aa93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 16/29] fix: let search_from hold any index in a clause

---
 src/assign/propagate.rs | 4 ++--
 src/types/clause.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6246f73..6da8654 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -512,7 +512,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k + 1) as u16;
+                            cdb[cid].search_from = (k + 1) as u32;
                             debug_assert_ne!(self.assigned(new_watch), Some(true));
                             check_in!(
                                 cid,
@@ -692,7 +692,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k as u16).saturating_add(1);
+                            cdb[cid].search_from = (k + 1) as u32;
                             debug_assert!(
                                 self.assigned(!new_watch) == Some(true)
                                     || self.assigned(!new_watch).is_none()
diff --git a/src/types/clause.rs b/src/types/clause.rs
index 8a2328e..1187f94 100644
--- a/src/types/clause.rs
+++ b/src/types/clause.rs
@@ -19,8 +19,8 @@ pub struct Clause {
     /// The number of propagation.
     pub used: u16,
     /// the index from which `propagate` starts searching an un-falsified literal.
-    /// Since it's just a hint, we don't need u32 or usize.
-    pub search_from: u16,
+    /// This must hold any index in a clause (plus one).
+    pub search_from: u32,
 
     #[cfg(any(feature = "boundary_check", feature = "clause_rewarding"))]
     /// the number of conflicts at which this clause was used in `conflict_analyze`
-- 
2.43.0


From ce40058447765568a27250706e951f0cc8e6fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 17/29] fix: keep num_learnt in step when a subsuming learnt
 clause becomes permanent

---
 src/cdb/db.rs            | 7 +++++++
 src/cdb/mod.rs           | 2 ++
 src/processor/subsume.rs | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index da21eb9..bc57d3f 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -521,6 +521,13 @@ impl ClauseDBIF for ClauseDB {
         self.freelist.push(cid);
         // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);
     }
+    fn make_permanent(&mut self, cid: ClauseId) {
+        let c = &mut self.clause[NonZeroU32::get(cid.ordinal) as usize];
+        if c.is(FlagClause::LEARNT) {
+            c.turn_off(FlagClause::LEARNT);
+            self.num_learnt -= 1;
+        }
+    }
     fn remove_clause_sandbox(&mut self, cid: ClauseId) {
         // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);
         let c = &mut self.clause[NonZeroU32::get(cid.ordinal) as usize];
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index dced024..2118297 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -107,6 +107,8 @@ pub trait ClauseDBIF:
     fn new_clause_sandbox(&mut self, asg: &mut impl AssignIF, v: &mut Vec<Lit>) -> RefClause;
     /// un-register a clause `cid` from clause database and make the clause dead.
     fn remove_clause(&mut self, cid: ClauseId);
+    /// turn a learnt (removable) clause into a permanent one.
+    fn make_permanent(&mut self, cid: ClauseId);
     /// un-register a clause `cid` from clause database and make the clause dead.
     fn remove_clause_sandbox(&mut self, cid: ClauseId);
     /// update watches of the clause
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index eb15d73..284d7a4 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -28,7 +28,7 @@ impl Eliminator {
                 );
                 debug_assert!(!cdb[did].is_dead());
                 if !cdb[did].is(FlagClause::LEARNT) {
-                    cdb[cid].turn_off(FlagClause::LEARNT);
+                    cdb.make_permanent(cid);
                 }
                 self.remove_cid_occur(asg, did, &mut cdb[did]);
                 cdb.remove_clause(did);
-- 
2.43.0


From 5eea98461e63e2ff396804ac5860219b04c27fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 18/29] fix: drop clause ids from occurrence lists of vars
 given up by the eliminator

The lists of an 'aborted' var kept ids of clauses that had lost the literal,
which hit a debug assertion in backward_subsumption_check.
---
 src/processor/simplify.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 6581cca..654a37c 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -588,6 +588,12 @@ impl Eliminator {
     pub fn remove_lit_occur(&mut self, asg: &mut impl AssignIF, l: Lit, cid: ClauseId) {
         let w = &mut self[l.vi()];
         if w.aborted {
+            // The list can lack `cid`, but it must not keep an id that lost the literal.
+            if bool::from(l) {
+                w.pos_occurs.delete_unstable(|&c| c == cid);
+            } else {
+                w.neg_occurs.delete_unstable(|&c| c == cid);
+            }
             return;
         }
         if bool::from(l) {
-- 
2.43.0


From 0e3275db29d1bf9131b8d6ec966b2be33f220cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 19/29] fix: dump every assertion into the CNF of dump_cnf, and
 count the clauses in its header right

---
 src/cdb/db.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index bc57d3f..3439b25 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1282,7 +1282,7 @@ impl ClauseDBIF for ClauseDB {
     /// dump all active clauses and assertions as a CNF file.
     fn dump_cnf(&self, asg: &impl AssignIF, fname: &Path) {
         let nv = asg.derefer(crate::assign::property::Tusize::NumVar);
-        for vi in 1..nv {
+        for vi in 1..=nv {
             if asg.var(vi).is(FlagVar::ELIMINATED) && asg.assign(vi).is_some() {
                 panic!("conflicting var {} {:?}", vi, asg.assign(vi));
             }
@@ -1291,7 +1291,12 @@ impl ClauseDBIF for ClauseDB {
             return;
         };
         let mut buf = std::io::BufWriter::new(out);
-        let na = asg.derefer(crate::assign::property::Tusize::NumAssertedVar);
+        // all the assertions, whether they are still on the trail or not
+        let assertions = (1..=nv)
+            .filter(|vi| asg.level(*vi) == asg.root_level())
+            .filter_map(|vi| asg.assign(vi).map(|b| Lit::from((vi, b))))
+            .collect::<Vec<Lit>>();
+        let na = assertions.len();
         let nc = self.iter().skip(1).filter(|c| !c.is_dead()).count();
         buf.write_all(format!("p cnf {} {}\n", nv, nc + na).as_bytes())
             .unwrap();
@@ -1306,8 +1311,8 @@ impl ClauseDBIF for ClauseDB {
             buf.write_all(b"0\n").unwrap();
         }
         buf.write_all(b"c from trail\n").unwrap();
-        for x in asg.stack_iter().take(asg.len_upto(0)) {
-            buf.write_all(format!("{} 0\n", i32::from(*x)).as_bytes())
+        for x in assertions {
+            buf.write_all(format!("{} 0\n", i32::from(x)).as_bytes())
                 .unwrap();
         }
     }
-- 
2.43.0


From e2f518287506eab2cff126df9b8a6989663ba2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 20/29] fix: start the window of Ewa and Ewa2 with the share of
 the initial value

---
 src/types/ema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/ema.rs b/src/types/ema.rs
index 9164c39..0bdd5ad 100644
--- a/src/types/ema.rs
+++ b/src/types/ema.rs
@@ -320,7 +320,7 @@ impl<const N: usize> Ewa<N> {
                 fast: initial,
                 slow: initial,
             },
-            pool: [initial; N],
+            pool: [initial / N as f64; N],
             last: 0,
         }
     }
@@ -398,7 +398,7 @@ impl<const N: usize> Ewa2<N> {
                 fast: initial,
                 slow: initial,
             },
-            pool: [initial; N],
+            pool: [initial / N as f64; N],
             last: 0,
             #[cfg(feature = "EMA_calibration")]
             cals: initial,
-- 
2.43.0


From cb66aa1a5ecd08dba622b7dfcf3a38d239a69ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 21/29] fix: report an answer file that couldn't be written in
 full

---
 src/bin/splr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index f091222..7aa04cb 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -156,7 +156,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 for x in v {
                     buf.write_all(format!("{x} ").as_bytes())?;
                 }
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -189,7 +190,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, &mut buf)?;
                 buf.write_all(b"s UNSATISFIABLE\n")?;
-                buf.write_all(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -218,7 +220,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, buf)?;
                 buf.write_all(format!("c {}\n{}\n", e, colored(Err(e), true)).as_bytes())?;
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
-- 
2.43.0


From e1a2526f5827ee68fa1fba17eca2ee6623a80072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 22/29] fix: report a certificate that couldn't be written in
 full

---
 src/bin/splr.rs              | 15 ++++++++++-----
 src/cdb/db.rs                |  4 ++--
 src/cdb/mod.rs               |  6 +++++-
 src/cdb/unsat_certificate.rs | 33 +++++++++++++++++++++++++++------
 src/solver/build.rs          | 10 +++++++---
 5 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index 7aa04cb..0b07491 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -174,11 +174,16 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 _ => (),
             }
             if s.state.config.use_certification {
-                s.save_certification();
-                println!(
-                    " Certificate|file: {}",
-                    s.state.config.io_pfile.to_string_lossy()
-                );
+                match s.save_certification() {
+                    Ok(()) => println!(
+                        " Certificate|file: {}",
+                        s.state.config.io_pfile.to_string_lossy()
+                    ),
+                    Err(_) => println!(
+                        "Abort: failed to save the certificate to {}!",
+                        s.state.config.io_pfile.to_string_lossy()
+                    ),
+                }
             }
             println!("{}: {}", colored(Ok(false), s.state.config.no_color), input);
             if let Err(why) = (|| {
diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 3439b25..08b6083 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1147,8 +1147,8 @@ impl ClauseDBIF for ClauseDB {
     fn certificate_add_assertion(&mut self, lit: Lit) {
         self.certification_store.add_clause(&[lit]);
     }
-    fn certificate_save(&mut self) {
-        self.certification_store.close();
+    fn certificate_save(&mut self) -> Result<(), SolverError> {
+        self.certification_store.close()
     }
     fn check_size(&self) -> Result<bool, SolverError> {
         if self.soft_limit == 0 || self.num_clause <= self.soft_limit {
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index 2118297..fdd6d04 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -129,7 +129,11 @@ pub trait ClauseDBIF:
     /// record an asserted literal to unsat certification.
     fn certificate_add_assertion(&mut self, lit: Lit);
     /// save the certification record to a file.
-    fn certificate_save(&mut self);
+    ///
+    /// # Errors
+    ///
+    /// if it can't be written in full.
+    fn certificate_save(&mut self) -> Result<(), SolverError>;
     /// check the number of clauses
     /// * `Err(SolverError::OutOfMemory)` -- the db size is over the limit.
     /// * `Ok(true)` -- enough small
diff --git a/src/cdb/unsat_certificate.rs b/src/cdb/unsat_certificate.rs
index e3efd05..87b3cca 100644
--- a/src/cdb/unsat_certificate.rs
+++ b/src/cdb/unsat_certificate.rs
@@ -25,7 +25,9 @@ impl CertificationStore {
     }
     pub fn add_clause(&mut self, _clause: &[Lit]) {}
     pub fn delete_clause(&mut self, _vec: &[Lit]) {}
-    pub fn close(&mut self) {}
+    pub fn close(&mut self) -> Result<(), SolverError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "no_IO"))]
@@ -39,6 +41,8 @@ pub struct CertificationStore {
     queue: Vec<i32>,
     target: Option<PathBuf>,
     buffer: Option<BufWriter<File>>,
+    /// certification was requested, but couldn't be written
+    failed: bool,
 }
 
 impl Clone for CertificationStore {
@@ -58,8 +62,13 @@ impl Instantiate for CertificationStore {
                     queue: Vec::with_capacity(DUMP_INTERVAL + 1024),
                     buffer: Some(BufWriter::new(out)),
                     target: Some(cert),
+                    failed: false,
                 };
             }
+            return CertificationStore {
+                failed: true,
+                ..CertificationStore::default()
+            };
         }
         CertificationStore::default()
     }
@@ -88,16 +97,25 @@ impl CertificationStore {
             self.dump_to_file();
         }
     }
-    pub fn close(&mut self) {
-        if self.buffer.is_none() {
-            return;
+    /// finish the certification.
+    ///
+    /// # Errors
+    ///
+    /// if it couldn't be written in full.
+    pub fn close(&mut self) -> Result<(), SolverError> {
+        if self.buffer.is_some() {
+            self.dump_to_file();
         }
-        self.dump_to_file();
         if let Some(ref mut buf) = self.buffer {
-            let _ = buf.write_all(b"0\n");
+            self.failed |= buf.write_all(b"0\n").is_err() || buf.flush().is_err();
             self.buffer = None;
             self.target = None;
         }
+        if self.failed {
+            Err(SolverError::IOError)
+        } else {
+            Ok(())
+        }
     }
 }
 
@@ -110,6 +128,7 @@ impl CertificationStore {
                 let l = self.queue[index];
                 if l < 0 && buf.write_all(b"d ").is_err() {
                     self.buffer = None;
+                    self.failed = true;
                     break;
                 }
                 for _ in 0..(l.unsigned_abs() as usize) {
@@ -119,11 +138,13 @@ impl CertificationStore {
                         .is_err()
                     {
                         self.buffer = None;
+                        self.failed = true;
                         return;
                     }
                 }
                 if buf.write_all(b"0\n").is_err() {
                     self.buffer = None;
+                    self.failed = true;
                     break;
                 }
                 index += 1;
diff --git a/src/solver/build.rs b/src/solver/build.rs
index 8ba277e..1fd5da0 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -104,7 +104,11 @@ pub trait SatSolverIF: Instantiate {
     fn build(config: &Config) -> Result<Solver, SolverError>;
     #[cfg(not(feature = "no_IO"))]
     /// dump an UNSAT certification file
-    fn save_certification(&mut self);
+    ///
+    /// # Errors
+    ///
+    /// `SolverError::IOError` if it couldn't be written in full.
+    fn save_certification(&mut self) -> Result<(), SolverError>;
     #[cfg(not(feature = "no_IO"))]
     /// dump the current status as a CNF
     fn dump_cnf(&self, fname: &Path);
@@ -236,8 +240,8 @@ impl SatSolverIF for Solver {
     }
     #[cfg(not(feature = "no_IO"))]
     /// dump an UNSAT certification file
-    fn save_certification(&mut self) {
-        self.cdb.certificate_save();
+    fn save_certification(&mut self) -> Result<(), SolverError> {
+        self.cdb.certificate_save()
     }
     #[cfg(not(feature = "no_IO"))]
     /// dump all active clauses and assertions as a CNF file.
-- 
2.43.0


From 6ef00099431a6d37291f374f9a1200c330304185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 23/29] fix: report a CNF file that couldn't be saved in full

---
 src/cnf/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index b86f1fd..dcaf5c9 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -198,6 +198,7 @@ impl CnfIf for CNF {
         if let Ok(f) = File::create(file) {
             let mut buf = std::io::BufWriter::new(f);
             buf.write_all(self.dump_to_string().as_bytes())
+                .and_then(|_| buf.flush())
                 .map_err(|_| CNFOperationError::WritingCNFFile)
         } else {
             Err(CNFOperationError::CreatingCNFFile)
-- 
2.43.0


From 8c0391c56550fdb536558012dbe94454ddb08cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 24/29] fix: cut a long file name at a character boundary

---
 src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 4ae5a9c..6812e38 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -824,7 +824,11 @@ impl fmt::Display for State {
             CNFIndicator::LitVec(n) => format!("(embedded {n} element vector)"),
         };
         if width <= fname.len() {
-            fname.truncate(58 - vclen);
+            let mut len = 58 - vclen;
+            while !fname.is_char_boundary(len) {
+                len -= 1;
+            }
+            fname.truncate(len);
         }
         let fnlen = fname.len();
         if width < vclen + fnlen + 1 {
-- 
2.43.0


From 60c0359aab7858442bc0d24f923454fb9ca2d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:26 +0000
Subject: [PATCH 25/29] fix: record the number of subsumed clauses also when
 progress is shown

---
 src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/state.rs b/src/state.rs
index 6812e38..160c557 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -634,6 +634,9 @@ impl StateIF for State {
         );
         self[LogUsizeId::Stage] = self.stm.current_stage();
         self[LogUsizeId::StageCycle] = self.stm.current_cycle();
+        self[LogUsizeId::Simplify] = self[Stat::Simplify];
+        self[LogUsizeId::SubsumedClause] = self[Stat::SubsumedClause];
+        self[LogUsizeId::VivifiedVar] = self[Stat::VivifiedVar];
         self[LogUsizeId::Vivify] = self[Stat::Vivification];
         if self.config.show_cdb_heatmap {
             let big_change = 0.002;
-- 
2.43.0


From fcc687d13ee03f26dd3f4b02b391b5a3b5543f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:26 +0000
Subject: [PATCH 26/29] fix: record the same segment whether or not progress is
 shown

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 160c557..96a0831 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -780,7 +780,7 @@ impl State {
         self[LogUsizeId::Restart] = self[Stat::Restart];
         self[LogUsizeId::Stage] = self.stm.current_stage();
         self[LogUsizeId::StageCycle] = self.stm.current_cycle();
-        self[LogUsizeId::StageSegment] = self.stm.max_scale();
+        self[LogUsizeId::StageSegment] = self.stm.current_segment();
         self[LogUsizeId::Simplify] = self[Stat::Simplify];
         self[LogUsizeId::SubsumedClause] = self[Stat::SubsumedClause];
         self[LogUsizeId::VivifiedClause] = self[Stat::VivifiedClause];
-- 
2.43.0


From 042dedd9822ad8fe018053f0d4fcb5b87858ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 27/29] fix: --crl wrapped around values over 65535

---
 src/config.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index c4ac8d7..7b72188 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -177,7 +177,10 @@ impl Config {
                                 if let Ok(val) = str.parse::<usize>() {
                                     match name {
                                         "cl" => self.c_cls_lim = val,
-                                        "crl" => self.cls_rdc_lbd = val as u16,
+                                        "crl" => {
+                                            self.cls_rdc_lbd =
+                                                u16::try_from(val).unwrap_or(u16::MAX);
+                                        }
                                         "ecl" => self.elm_cls_lim = val,
                                         "evl" => self.elm_grw_lim = val,
                                         "evo" => self.elm_var_occ = val,
-- 
2.43.0


From a70b04bae425b509fb2659e0bfc80eef68674423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 28/29] fix: the value of the last option was also taken as the
 CNF file

---
 src/config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 7b72188..c724749 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -140,6 +140,8 @@ impl Config {
     pub fn inject_from_args(&mut self) {
         let mut help = false;
         let mut version = false;
+        // an argument taken as the value of an option isn't the target
+        let mut has_target = std::env::args().count() < 2;
         if 1 < std::env::args().count()
             && let Some(ref cnf) = std::env::args().next_back()
         {
@@ -264,6 +266,8 @@ impl Config {
                 }
             } else if self.cnf_file.to_string_lossy() != arg {
                 panic!("invalid argument: {arg}");
+            } else {
+                has_target = true;
             }
         }
         if help {
@@ -313,7 +317,7 @@ impl Config {
             println!("{}", env!("CARGO_PKG_VERSION"));
             std::process::exit(0);
         }
-        if self.cnf_file.to_string_lossy().is_empty() {
+        if !has_target || self.cnf_file.to_string_lossy().is_empty() {
             println!("No target file specified. Run with '--help' to show help message.");
             std::process::exit(0);
         }
-- 
2.43.0


From 7d5ed0466629c58def11010b34f04b4e5db968d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:25 +0000
Subject: [PATCH 29/29] fix: a large SPLR_TIMEOUT overflowed

---
 src/bin/splr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index 0b07491..f4c4254 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -75,7 +75,7 @@ fn main() {
         let input = cnf_file.as_ref().to_string();
         let no_color = config.no_color;
         thread::spawn(move || {
-            thread::sleep(Duration::from_millis(timeout * 1000));
+            thread::sleep(Duration::from_secs(timeout));
             println!(
                 "{} (TimeOut): {}",
                 colored(Err(&SolverError::TimeOut), no_color),
-- 
2.43.0

