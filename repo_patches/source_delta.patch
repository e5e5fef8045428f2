From f2d062123d3a8b139095aca9b9adb6f4bbdb654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 01/51] fix: prune_with_affected handles the sync operator
 instead of panicking

---
 src/core/language/prune/interaction.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/core/language/prune/interaction.rs b/src/core/language/prune/interaction.rs
index 2eb7e7d..2c92a5f 100644
--- a/src/core/language/prune/interaction.rs
+++ b/src/core/language/prune/interaction.rs
@@ -201,6 +201,27 @@ impl LifelinePrunable for Interaction {
                     }
                 }
             },
+            Interaction::Sync(sync_acts, i1, i2) => {
+                let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
+                let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
+                aff1.extend(aff2);
+                // ***
+                let acts1 = pruned_i1.get_all_trace_actions();
+                let acts2 = pruned_i2.get_all_trace_actions();
+                if sync_acts.iter().any(|act| acts1.contains(act) || acts2.contains(act)) {
+                    return (Interaction::Sync(sync_acts.clone(), Box::new(pruned_i1), Box::new(pruned_i2)),aff1);
+                }
+                // ***
+                if pruned_i1 == Interaction::Empty {
+                    return (pruned_i2,aff1);
+                }else {
+                    if pruned_i2 == Interaction::Empty {
+                        return (pruned_i1,aff1);
+                    } else {
+                        return (Interaction::Par( Box::new(pruned_i1) , Box::new(pruned_i2) ),aff1);
+                    }
+                }
+            },
             Interaction::Strict(i1, i2) => {
                 let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
                 let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
-- 
2.43.0


From 520290cfa25ba9f44aaf4dfbff3c414c77aab12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 02/51] fix: right execution of a coregion prunes only the
 lifelines that are not in the coregion

---
 src/core/execution/semantics/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index ef4547e..f87b703 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -337,7 +337,7 @@ fn execute_interaction_right(my_int : &Interaction,
                 let got_i1;
                 let mut aff1;
                 if lfs_to_prune.len() > 0 {
-                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&tar_lf_ids);
+                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&lfs_to_prune);
                     got_i1 = Agot_i1;
                     aff1 = Aaff1;
                 } else {
-- 
2.43.0


From 3c69b03c0ba4006da70f08640147feac8fd95895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 03/51] fix: execution of a synchronized pair uses each
 operand's own target lifelines

---
 src/core/execution/semantics/execute.rs | 45 +++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index f87b703..78d2f51 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -404,6 +404,46 @@ fn execute_interaction_right(my_int : &Interaction,
     }
 }
 
+fn get_target_lf_ids(my_int : &Interaction,
+                     my_pos : &Position) -> BTreeSet<usize> {
+    match (my_pos,my_int) {
+        (Position::Epsilon(_),Interaction::Emission(em_act)) => {
+            match em_act.synchronicity {
+                CommunicationSynchronicity::Synchronous => em_act.involved_lifelines(),
+                CommunicationSynchronicity::Asynchronous => btreeset!{em_act.origin_lf_id}
+            }
+        },
+        (Position::Epsilon(Some(sub_pos_idx)),Interaction::Reception(rc_act)) => {
+            btreeset!{rc_act.recipients[*sub_pos_idx]}
+        },
+        (Position::Epsilon(None),Interaction::Reception(rc_act)) => {
+            rc_act.involved_lifelines()
+        },
+        (Position::Left(p1),Interaction::Loop(_,i1)) => {
+            get_target_lf_ids(i1,p1)
+        },
+        (_,Interaction::Strict(i1,i2)) | (_,Interaction::Seq(i1,i2)) |
+        (_,Interaction::CoReg(_,i1,i2)) | (_,Interaction::Par(i1,i2)) |
+        (_,Interaction::Alt(i1,i2)) | (_,Interaction::Sync(_,i1,i2)) => {
+            match my_pos {
+                Position::Left(p1) => get_target_lf_ids(i1,p1),
+                Position::Right(p2) => get_target_lf_ids(i2,p2),
+                Position::Both(p1,p2) => {
+                    let mut lf_ids = get_target_lf_ids(i1,p1);
+                    lf_ids.extend( get_target_lf_ids(i2,p2) );
+                    lf_ids
+                },
+                Position::Epsilon(_) => {
+                    panic!("not the position of an action : {:?}", my_pos);
+                }
+            }
+        },
+        _ => {
+            panic!("not the position of an action : {:?}", my_pos);
+        }
+    }
+}
+
 fn execute_interaction_both(my_int : &Interaction,
                             sub_p1 : &Position,
                             sub_p2 : &Position,
@@ -426,8 +466,9 @@ fn execute_interaction_both(my_int : &Interaction,
             }
         },
         Interaction::Sync(sync_acts, i1, i2) => {
-            let exres1 = execute_interaction(i1,sub_p1, tar_lf_ids,get_affected);
-            let exres2 = execute_interaction(i2,sub_p2, tar_lf_ids,get_affected);
+            // the synchronized multi-actions may occupy different lifelines on the left and on the right
+            let exres1 = execute_interaction(i1,sub_p1, &get_target_lf_ids(i1,sub_p1),get_affected);
+            let exres2 = execute_interaction(i2,sub_p2, &get_target_lf_ids(i2,sub_p2),get_affected);
             // ***
             let acts1 = exres1.interaction.get_all_trace_actions();
             let acts2 = exres2.interaction.get_all_trace_actions();
-- 
2.43.0


From 1af0b31075d6e39cb18551310b39604ab72bf90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 04/51] fix: head-first loops are not merged with a nested
 head-first or strict loop

---
 src/core/language/eliminate_lf/interaction.rs     | 11 +++++++++--
 src/core/language/syntax/interaction.rs           | 12 ++++++++++++
 src/core/transformation/transfofunc/loop_simpl.rs |  6 ++++--
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/core/language/eliminate_lf/interaction.rs b/src/core/language/eliminate_lf/interaction.rs
index c239f5b..6122e20 100644
--- a/src/core/language/eliminate_lf/interaction.rs
+++ b/src/core/language/eliminate_lf/interaction.rs
@@ -17,7 +17,7 @@ limitations under the License.
 
 use std::collections::{BTreeSet, HashSet};
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
-use crate::core::language::syntax::interaction::Interaction;
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 
 
 impl LifelineEliminable for Interaction {
@@ -181,7 +181,14 @@ impl LifelineEliminable for Interaction {
                         return Interaction::Empty;
                     },
                     Interaction::Loop(opkind2,i11) => {
-                        return Interaction::Loop((opkind.min(opkind2)).clone(), i11.clone());
+                        match LoopKind::merge_nested(opkind,opkind2) {
+                            Some(lk) => {
+                                return Interaction::Loop(lk, i11.clone());
+                            },
+                            None => {
+                                return Interaction::Loop(opkind.clone(),Box::new(new_i1) );
+                            }
+                        }
                     },
                     _ => {
                         return Interaction::Loop(opkind.clone(),Box::new(new_i1) );
diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index d17ade9..0aed79d 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -29,6 +29,18 @@ pub enum LoopKind {
     SStrictSeq     = 4
 }
 
+impl LoopKind {
+    /// The kind of the single loop that is equivalent to a loop of kind 'outer' on a loop of kind 'inner', if there is one.
+    /// A head-first loop on a head-first or strict loop is not equivalent to a single loop:
+    /// several inner iterations are run before the head of the next outer iteration matters.
+    pub fn merge_nested(outer : &LoopKind, inner : &LoopKind) -> Option<LoopKind> {
+        match (outer,inner) {
+            (LoopKind::HHeadFirstWS,LoopKind::HHeadFirstWS) | (LoopKind::HHeadFirstWS,LoopKind::SStrictSeq) => None,
+            _ => Some(outer.min(inner).clone())
+        }
+    }
+}
+
 #[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
 pub enum Interaction {
     Empty,
diff --git a/src/core/transformation/transfofunc/loop_simpl.rs b/src/core/transformation/transfofunc/loop_simpl.rs
index 47c463e..cd012e0 100644
--- a/src/core/transformation/transfofunc/loop_simpl.rs
+++ b/src/core/transformation/transfofunc/loop_simpl.rs
@@ -16,7 +16,7 @@ limitations under the License.
 
 
 
-use crate::core::language::syntax::interaction::{Interaction};
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 
 pub fn transfo_loop_empty_simpl(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
@@ -39,7 +39,9 @@ pub fn transfo_loop_unnest(interaction : &Interaction) -> Vec<Interaction> {
         &Interaction::Loop(ref lkA, ref i1) => {
             match **i1 {
                 Interaction::Loop(ref lkB, ref i11) => {
-                    return vec![Interaction::Loop((lkA.min(lkB)).clone(), i11.clone())];
+                    if let Some(lk) = LoopKind::merge_nested(lkA,lkB) {
+                        return vec![Interaction::Loop(lk, i11.clone())];
+                    }
                 },
                 _ => {}
             }
-- 
2.43.0


From 61f43dd5044abc47d56a6a58ae37b76d29d79bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 05/51] fix: synchronous communications are not unfolded into
 asynchronous actions

---
 src/core/transformation/transfofunc/action.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/transformation/transfofunc/action.rs b/src/core/transformation/transfofunc/action.rs
index 47090c2..d8676d8 100644
--- a/src/core/transformation/transfofunc/action.rs
+++ b/src/core/transformation/transfofunc/action.rs
@@ -49,7 +49,7 @@ pub fn transfo_sort_action_content(interaction : &Interaction) -> Vec<Interactio
 pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
         &Interaction::Emission(ref em_act) => {
-            if em_act.targets.len() == 0 {
+            if em_act.targets.len() == 0 || em_act.synchronicity == CommunicationSynchronicity::Synchronous {
                 // nothing to transform
                 return vec![];
             } else {
@@ -89,6 +89,10 @@ pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
             }
         },
         &Interaction::Reception(ref rc_act) => {
+            if rc_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                // nothing to transform
+                return vec![];
+            }
             match rc_act.recipients.len() {
                 0 => {
                     panic!("malformed interaction : reception action with 0 recipients")
-- 
2.43.0


From cd37883a6d8c08d453a6931481526b858cb77cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 06/51] fix: the reverse of an asynchronous communication has
 its receptions before its emission

---
 src/core/language/syntax/interaction.rs | 29 +++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index 0aed79d..04dbc90 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -18,7 +18,7 @@ limitations under the License.
 use std::collections::HashSet;
 use std::hash::Hash;
 use crate::core::execution::trace::trace::TraceAction;
-use crate::core::language::syntax::action::{EmissionAction, ReceptionAction};
+use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
 
 
 #[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
@@ -65,7 +65,32 @@ impl Interaction {
                 Interaction::Empty
             },
             Interaction::Emission(ref em_act) => {
-                Interaction::Emission(em_act.clone())
+                if em_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                    return Interaction::Emission(em_act.clone());
+                }
+                // the receptions of an asynchronous communication occur after its emission
+                let mut recipients = vec![];
+                let mut gates = vec![];
+                for target_ref in &em_act.targets {
+                    match target_ref {
+                        EmissionTargetRef::Lifeline(lf_id) => {
+                            recipients.push(*lf_id);
+                        },
+                        EmissionTargetRef::Gate(_) => {
+                            gates.push(target_ref.clone());
+                        }
+                    }
+                }
+                if recipients.is_empty() {
+                    return Interaction::Emission(em_act.clone());
+                }
+                let receptions = Interaction::Reception(
+                    ReceptionAction::new(None,em_act.ms_id,CommunicationSynchronicity::Asynchronous,recipients)
+                );
+                let emission = Interaction::Emission(
+                    EmissionAction::new(em_act.origin_lf_id,em_act.ms_id,CommunicationSynchronicity::Asynchronous,gates)
+                );
+                Interaction::Strict(Box::new(receptions),Box::new(emission))
             },
             Interaction::Reception(ref rc_act) => {
                 Interaction::Reception(rc_act.clone())
-- 
2.43.0


From ab3d434f1fba1c7077789fd5dbeaf3acd4c1b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 07/51] fix: memoization only identifies analysis nodes that
 consumed the same part of the multi-trace

---
 src/process/ana/node/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index f29a02e..7c6d9d5 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -49,7 +49,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
             for idx in 0..self.flags.canals.len() {
                 let my_canal : &TraceAnalysisFlags  = self.flags.canals.get(idx).unwrap();
                 let other_canal : &TraceAnalysisFlags = memoized_node.flags.canals.get(idx).unwrap();
-                if my_canal.consumed > other_canal.consumed {
+                if my_canal.consumed != other_canal.consumed {
                     return false;
                 }
                 if my_canal.simulated_after < other_canal.simulated_after {
-- 
2.43.0


From 14af0ba4cbdfe933425b47be527321c1f30f20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:13 +0000
Subject: [PATCH 08/51] fix: analysis matches synchronous communications that
 span several co-localizations

---
 src/process/ana/handling/matches.rs | 32 +++++++++++++----------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 3a6fb43..45b52af 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -229,14 +229,6 @@ impl AnalysisParameterization {
                                           context : &AnalysisContext,
                                           interaction : &Interaction,
                                           flags : &MultiTraceAnalysisFlags) -> Vec<AnalysisStepKind> {
-        /**
-         TODO: this new way of computing matches has allowed partial order readuction but it has broken
-         TODO: matching for synchronous communications (e.g., the <synch> keyword)
-         TODO: indeed, we match each individual head action to a frontier element
-         TODO: but with synchronous comm several distinct head actions can be matched together with a single frontier element
-         TODO: a quick fix is easy to do but still needs to be done
-         **/
-        // ***
         let mut coloc_ids_to_frontier_elts : HashMap<usize,Vec<FrontierElement>> = hashmap!{};
         let matching_heads : Vec<(usize,&BTreeSet<TraceAction>)> = {
             // collects multi-actions at the head of each local components
@@ -250,17 +242,21 @@ impl AnalysisParameterization {
                 }
             }
 
-            // iter head actions
+            // iter immediately executable multi-actions
             for frt_elt in global_frontier(interaction,true) {
-                // iter head actions to look for a match
-                'iter_head : for (coloc_id,head) in head_actions.iter() {
-                    // if there is a match keeps track of frt_elt
-                    if frt_elt.target_actions == **head {
-                        coloc_ids_to_frontier_elts.entry(*coloc_id)
-                            .or_insert_with(Vec::new)
-                            .push(frt_elt);
-                        break 'iter_head;
-                    }
+                // with synchronous communications, a single frontier element may concern several co-localizations
+                // it is a match if, on each one of these, the head action is what occurs of it on that co-localization
+                let concerned_colocs = context.co_localizations.get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids);
+                let matched_heads_num = head_actions.iter().filter(|(coloc_id,head)| {
+                    let coloc_lfs = context.co_localizations.get_coloc_lfs_ids(*coloc_id);
+                    concerned_colocs.contains(coloc_id) &&
+                        frt_elt.target_actions.iter().filter(|act| coloc_lfs.contains(&act.lf_id)).eq(head.iter())
+                }).count();
+                if matched_heads_num == concerned_colocs.len() {
+                    let first_coloc_id = concerned_colocs.into_iter().min().unwrap();
+                    coloc_ids_to_frontier_elts.entry(first_coloc_id)
+                        .or_insert_with(Vec::new)
+                        .push(frt_elt);
                 }
             }
 
-- 
2.43.0


From 7adfa250395c0fc63a1eae631e4405112790157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:41 +0000
Subject: [PATCH 09/51] fix: a local analysis failing on a partially observed
 execution makes the prefix analysis inconclusive

---
 src/process/ana/handling/handler.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/process/ana/handling/handler.rs b/src/process/ana/handling/handler.rs
index 42656ec..ae20fa2 100644
--- a/src/process/ana/handling/handler.rs
+++ b/src/process/ana/handling/handler.rs
@@ -288,6 +288,12 @@ impl AbstractProcessHandler<AnalysisConfig> for AnalysisProcessHandler {
                                                                             local_flags);
                     if param.ana_kind.has_simulation() {
                         Some( (AnalysisLocalVerdict::OutSim(true),data) )
+                    } else if param.ana_kind == AnalysisKind::Prefix
+                        && node_kind.flags.canals.iter().any(|canal| canal.consumed > 0)
+                        && node_kind.flags.is_any_component_empty(&context.multi_trace) {
+                        // some observation may lack on the emptied component so that
+                        // another continuation, with actions that were not observed, may have occurred
+                        Some( (AnalysisLocalVerdict::Inconc(InconcReason::LackObs),data) )
                     } else {
                         Some( (AnalysisLocalVerdict::Out(true),data) )
                     }
@@ -308,6 +314,9 @@ impl AbstractProcessHandler<AnalysisConfig> for AnalysisProcessHandler {
             AnalysisLocalVerdict::OutSim(_) => {
                 false
             },
+            AnalysisLocalVerdict::Inconc(_) => {
+                false
+            },
             _ => {true}
         }
     }
-- 
2.43.0


From fbfa371d7a3ff786ee8ccec850a4f6ec7f6f977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:41 +0000
Subject: [PATCH 10/51] fix: simulation budgets do not underflow when the
 corresponding criterion is not used

---
 src/process/ana/node/flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index fd0413b..f758377 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -240,14 +240,14 @@ impl MultiTraceAnalysisFlags {
         // ***
         let rem_loop_in_sim : u32;
         {
-            let removed = self.rem_loop_in_sim - loop_depth;
+            let removed = self.rem_loop_in_sim.saturating_sub(loop_depth);
             let reset = sim_config.get_reset_rem_loop(rem_multitrace_length,new_interaction);
             rem_loop_in_sim = reset.min(removed);
         }
         // ***
         let rem_act_in_sim : u32;
         {
-            let removed = self.rem_act_in_sim - 1;
+            let removed = self.rem_act_in_sim.saturating_sub(1);
             let reset = sim_config.get_reset_rem_act(rem_multitrace_length,new_interaction);
             rem_act_in_sim = reset.min(removed);
         }
-- 
2.43.0


From 748071cf1d556f8361cddc461752d4f4512245e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 11/51] fix: simulation steps match or simulate every action of
 a synchronous communication

---
 src/process/ana/handling/matches.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 45b52af..51c7bc8 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -123,7 +123,8 @@ impl AnalysisParameterization {
                 }
                 let tract_coloc_id = context.co_localizations.get_lf_coloc_id(tract.lf_id).unwrap();
                 if ok_canals.contains(&tract_coloc_id) {
-                    panic!("an action left to match on a coloc on which we already do some match-execution");
+                    // what occurs on that co-localization is not what has been observed on it
+                    ok_to_simulate = false;
                 } else {
                     let mut gotit = false;
                     let canal_flag : &TraceAnalysisFlags = flags.canals.get(tract_coloc_id).unwrap();
@@ -132,12 +133,10 @@ impl AnalysisParameterization {
                     if canal_flag.consumed == canal_trace.len() {
                         to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
                         gotit = true;
-                        break;
                     } else {
                         if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
                             to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
                             gotit = true;
-                            break;
                         }
                     }
                     // *
-- 
2.43.0


From 3f12170cb36086334e52d189b7c9309012eea62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:27 +0000
Subject: [PATCH 12/51] fix: the look-ahead depth of local analyses is taken
 into account

---
 src/process/ana/handling/local_analysis.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/process/ana/handling/local_analysis.rs b/src/process/ana/handling/local_analysis.rs
index 5df5816..779b7d5 100644
--- a/src/process/ana/handling/local_analysis.rs
+++ b/src/process/ana/handling/local_analysis.rs
@@ -18,6 +18,7 @@ limitations under the License.
 use std::collections::{BTreeSet, HashSet};
 use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
 use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
+use graph_process_manager_core::handler::filter::AbstractFilter;
 use graph_process_manager_core::manager::logger::AbstractProcessLogger;
 use graph_process_manager_core::manager::manager::GenericProcessManager;
 use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
@@ -27,7 +28,8 @@ use crate::core::general_context::GeneralContext;
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
 use crate::core::language::syntax::interaction::Interaction;
 use crate::process::ana::conf::AnalysisConfig;
-use crate::process::ana::filter::filter::AnalysisFilter;
+use crate::process::ana::filter::elim::AnalysisFilterEliminationKind;
+use crate::process::ana::filter::filter::{AnalysisFilter, AnalysisFilterCriterion};
 use crate::process::ana::node::flags::{MultiTraceAnalysisFlags, TraceAnalysisFlags};
 use crate::process::ana::node::node::AnalysisNodeKind;
 use crate::process::ana::param::anakind::AnalysisKind;
@@ -151,9 +153,9 @@ pub fn perform_local_analysis(gen_ctx : &GeneralContext,
     // ***
     let new_gen_ctx= gen_ctx.clone();
     // ***
-    let mut locana_filters : Vec<AnalysisFilter> = vec![];
+    let mut locana_filters : Vec<Box<dyn AbstractFilter<AnalysisFilterCriterion,AnalysisFilterEliminationKind>>> = vec![];
     if let Some(d) = max_depth {
-        locana_filters.push(AnalysisFilter::MaxProcessDepth(*d as u32));
+        locana_filters.push(Box::new(AnalysisFilter::MaxProcessDepth(*d as u32)));
     }
     // ***
     let init_mu_len = multi_trace_length(&local_multi_trace);
@@ -167,7 +169,7 @@ pub fn perform_local_analysis(gen_ctx : &GeneralContext,
     let mut local_analysis_manager : GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(locana_ctx,
                                                                                                         locana_param,
                                                                                                         delegate,
-                                                                                                        vec![],
+                                                                                                        locana_filters,
                                                                                                         loggers,
                                                                                                         Some(AnalysisGlobalVerdict::WeakPass),
                                                                                                         true);
-- 
2.43.0


From 17da36e8daba5561a89ed31e6bb73e79febbe804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:01 +0000
Subject: [PATCH 13/51] fix: a weak failure is inconclusive when nodes were
 filtered out

---
 src/process/ana/verdict/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/verdict/global.rs b/src/process/ana/verdict/global.rs
index a370ffe..5952934 100644
--- a/src/process/ana/verdict/global.rs
+++ b/src/process/ana/verdict/global.rs
@@ -162,7 +162,7 @@ impl AbstractGlobalVerdict<AnalysisLocalVerdict> for AnalysisGlobalVerdict {
     }
 
     fn update_knowing_nodes_were_filtered_out(self, has_filtered_nodes: bool) -> Self {
-        if self == AnalysisGlobalVerdict::Fail && has_filtered_nodes {
+        if (self == AnalysisGlobalVerdict::Fail || self == AnalysisGlobalVerdict::WeakFail) && has_filtered_nodes {
             AnalysisGlobalVerdict::Inconc(InconcReason::FilteredNodes)
         } else {
             self
-- 
2.43.0


From c8ea95b6c6307e4d979464e76d610b7ba762ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 14/51] fix: simulation matches a multi-action only if it is
 all that occurs on its co-localization

---
 src/process/ana/handling/matches.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 51c7bc8..45afa48 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -99,6 +99,13 @@ impl AnalysisParameterization {
                                 entirely_included_in_front_elt = false;
                             }
                         }
+                        // and nothing else must occur on that co-localization
+                        let coloc_lfs = context.co_localizations.get_coloc_lfs_ids(canal_id);
+                        for act in frt_elt.target_actions.iter() {
+                            if coloc_lfs.contains(&act.lf_id) && !got_multiact.contains(act) {
+                                entirely_included_in_front_elt = false;
+                            }
+                        }
                         // ***
                         if intersect_with_front_elt && entirely_included_in_front_elt {
                             match_on_canal.push(canal_id );
@@ -123,8 +130,7 @@ impl AnalysisParameterization {
                 }
                 let tract_coloc_id = context.co_localizations.get_lf_coloc_id(tract.lf_id).unwrap();
                 if ok_canals.contains(&tract_coloc_id) {
-                    // what occurs on that co-localization is not what has been observed on it
-                    ok_to_simulate = false;
+                    panic!("an action left to match on a coloc on which we already do some match-execution");
                 } else {
                     let mut gotit = false;
                     let canal_flag : &TraceAnalysisFlags = flags.canals.get(tract_coloc_id).unwrap();
-- 
2.43.0


From ce0317cda945959461054e7ca46101d11e266494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 15/51] fix: a trace written without braces is a global trace
 over all the declared lifelines

---
 src/io/input/htf/implem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index e5fca20..ccdfc78 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -52,7 +52,7 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                             return Err(e);
                         },
                         Ok( got_trace ) => {
-                            let co_localization = CoLocalizations::get_trivial_partition(lifelines.len());
+                            let co_localization = CoLocalizations::get_trivial_partition(gen_ctx.get_lf_num());
                             let multi_trace : MultiTrace = vec![got_trace];
                             return Ok( (co_localization,multi_trace) );
                         }
-- 
2.43.0


From b38c2730806a9120a678240eeabb47d1eaa673d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 16/51] fix: co-localizations of a multi-trace that share a
 lifeline are rejected

---
 src/io/input/htf/multi_trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/htf/multi_trace.rs b/src/io/input/htf/multi_trace.rs
index c501d09..a1354a8 100644
--- a/src/io/input/htf/multi_trace.rs
+++ b/src/io/input/htf/multi_trace.rs
@@ -82,6 +82,9 @@ pub fn trace_canal_from_pair(gen_ctx : &GeneralContext,
                         return Err( HibouParsingError::MissingLifelineDeclarationError(lf_name));
                     },
                     Some( lf_id ) => {
+                        if unavailable_lifelines.contains(&lf_id) {
+                            return Err( HibouParsingError::NonDisjointTraceComponents );
+                        }
                         lifelines.insert(lf_id);
                     }
                 }
-- 
2.43.0


From 9e61533111ffb695d1b370511d26c7463f271393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 17/51] fix: actions of lifelines and messages whose name
 starts with an 'o' are parsed

---
 src/io/input/hif/hif_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hif/hif_syntax.pest b/src/io/input/hif/hif_syntax.pest
index 7050ae4..468cd76 100644
--- a/src/io/input/hif/hif_syntax.pest
+++ b/src/io/input/hif/hif_syntax.pest
@@ -83,8 +83,8 @@ SD_LOOP = {"loop" ~ (SD_LOOP_KIND_S | SD_LOOP_KIND_H | SD_LOOP_KIND_W | SD_LOOP_
 SD_LOOP_INT = { SD_LOOP ~ "(" ~ SD_INTERACTION ~ ")" }
 
 
-SD_INTERACTION = { SD_EMPTY_INTERACTION
-		| SD_COMMUNICATION_ACTION
+SD_INTERACTION = { SD_COMMUNICATION_ACTION
+		| SD_EMPTY_INTERACTION
         | SD_STRICT_INT
         | SD_SEQ_INT
         | SD_COREG_INT
-- 
2.43.0


From a77935d17dc6a8449572606fcd6e3fb394b2a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 18/51] fix: configuration options one spelling of which is a
 prefix of another one are parsed

---
 src/io/input/hcf/hcf_syntax.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index a3b57d1..386c2fe 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -42,7 +42,7 @@ GRAPHIC_LOGGER_draw_term_tree = { "draw_tt" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_sub_processes = { "draw_sub_processes" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_legend = { "draw_legend" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 
-GRAPHIC_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+GRAPHIC_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 GRAPHIC_LOGGER_output_file = { ("output"|"name") ~ "=" ~ HIBOU_LABEL }
 
 GRAPHIC_LOGGER_opt = _{ GRAPHIC_LOGGER_format
@@ -71,7 +71,7 @@ TRACEGEN_LOGGER_partition_trivial = { "trivial" }
 TRACEGEN_LOGGER_partition_specific = { "{" ~ HIBOU_LABEL_LIST ~ ("," ~ HIBOU_LABEL_LIST)*  ~ "}" }
 TRACEGEN_LOGGER_partition = _{ "partition" ~ "=" ~ (TRACEGEN_LOGGER_partition_discrete | TRACEGEN_LOGGER_partition_trivial | TRACEGEN_LOGGER_partition_specific) }
 
-TRACEGEN_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+TRACEGEN_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_trace_prefix = { ("name_prefix"|"trace_prefix"|"prefix") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_no_duplicate = { ("avoid_duplicates"|"prevent_duplicates"|"no_duplicates") ~ "=" ~ (HIBOU_true|HIBOU_false) }
 
@@ -84,7 +84,7 @@ TRACEGEN_LOGGER_opt = _{ TRACEGEN_LOGGER_gen_kind
 TRACEGEN_LOGGER_opts = { "[" ~ TRACEGEN_LOGGER_opt ~ ("," ~ TRACEGEN_LOGGER_opt)* ~ (",")? ~ "]" }
 OPTION_TRACEGEN_LOGGER = { "tracegen" ~ TRACEGEN_LOGGER_opts? }
 
-OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
+OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 
 // ***
 
@@ -200,7 +200,7 @@ OPTION_GOAL_KIND = _{ OPTION_GOAL_pass | OPTION_GOAL_weakpass | HIBOU_none }
 OPTION_GOAL_DECL = { "goal" ~ "=" ~ OPTION_GOAL_KIND }
 // ***********************************************
 OPTION_LOCANA_depth = { ("max_look_ahead_depth" | "max"~"depth" | "lookahead" | "lookup") ~ "=" ~ (HIBOU_none | ARITH_INTEGER)}
-OPTION_LOCANA_modulo = { ("modulo" | "modulo_each_X_steps") ~ "=" ~ ARITH_INTEGER}
+OPTION_LOCANA_modulo = { ("modulo_each_X_steps" | "modulo") ~ "=" ~ ARITH_INTEGER}
 OPTION_LOCANA_select_all = { "all" | "All" | "ALL" }
 OPTION_LOCANA_select_dirty = { "dirty" | "Dirty" | "DIRTY" }
 OPTION_LOCANA_select = { "select" ~ "=" ~ (OPTION_LOCANA_select_all|OPTION_LOCANA_select_dirty) }
@@ -227,7 +227,7 @@ ANALYZE_OPTION_SECTION =  { "@analyze_option" ~ "{" ~
 
 OPTION_CANON_searchall_yes = { "search_all" ~ ("=" ~ HIBOU_true)? }
 OPTION_CANON_searchall_no = { "search_all" ~ "=" ~ HIBOU_false }
-OPTION_CANON_searchall = _{ OPTION_CANON_searchall_yes | OPTION_CANON_searchall_no }
+OPTION_CANON_searchall = _{ OPTION_CANON_searchall_no | OPTION_CANON_searchall_yes }
 // ***
 CANONIZE_OPTION_DECL = _{ GENERAL_OPTION_DECL
                             | OPTION_CANON_searchall }
-- 
2.43.0


From b0b2e316728670a484f316f8c491570fe1c3c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 19/51] fix: a reception without any target lifeline is
 rejected

---
 src/io/input/hif/action/act_targets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hif/action/act_targets.rs b/src/io/input/hif/action/act_targets.rs
index 5a7cd4e..cd439a5 100644
--- a/src/io/input/hif/action/act_targets.rs
+++ b/src/io/input/hif/action/act_targets.rs
@@ -63,7 +63,7 @@ pub fn parse_comm_act_targets_as_lifelines(gen_ctx : &GeneralContext, target_pai
             return Ok( target_lf_ids );
         },
         Rule::ENVIRONMENT_TARGET => {
-            return Ok( vec![] );
+            return Err( HibouParsingError::OtherDefinitionError( "a reception must have at least one target lifeline".to_string() ) );
         },
         _ => {
             panic!("what rule then ? : {:?}", inner_pair.as_rule() );
-- 
2.43.0


From 6cdba31978d51178d97f7e9a36193360ad69e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 20/51] fix: options that canonization does not have give an
 error instead of a panic

---
 src/io/input/hcf/canon/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hcf/canon/options.rs b/src/io/input/hcf/canon/options.rs
index f4fbcda..a3ad7c8 100644
--- a/src/io/input/hcf/canon/options.rs
+++ b/src/io/input/hcf/canon/options.rs
@@ -98,13 +98,13 @@ pub fn parse_canonize_options(gen_ctx: &GeneralContext,
                             loggers.push( Box::new(glogger));
                         },
                         _ => {
-                            panic!("what rule then ? : {:?}", logger_kind_pair.as_rule() );
+                            return Err(HibouParsingError::HcfSetupError("only graphic loggers can be used for canonization".to_string()));
                         }
                     }
                 }
             },
             _ => {
-                panic!("what rule then ? : {:?}", option_decl_pair.as_rule() );
+                return Err(HibouParsingError::HcfSetupError("strategies, filters, priorities and memoization cannot be configured for canonization".to_string()));
             }
         }
     }
-- 
2.43.0


From 75dc5e3b47a5820a0aff5d23d556c7737ca3e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 21/51] fix: integers of configuration files that are too large
 give an error instead of a panic

---
 src/io/input/hcf/ana/options.rs      | 16 ++++++++--------
 src/io/input/hcf/explo/options.rs    |  8 ++++----
 src/io/input/hcf/loggers/tracegen.rs |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index 9abd205..db97cc0 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -300,19 +300,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 filters.push(Box::new(AnalysisFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 filters.push(Box::new(AnalysisFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -354,7 +354,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = priority_level_str.parse::<i32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
@@ -445,7 +445,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                             },
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = depth_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                                 max_look_ahead_depth = Some(my_val);
                             },
                             _ => {
@@ -458,7 +458,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                         match modulo_pair.as_rule() {
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = modulo_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                                 modulo_each_X_steps = my_val;
                             },
                             _ => {
@@ -542,7 +542,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                         act_crit = SimulationActionCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
@@ -562,7 +562,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                         loop_crit = SimulationLoopCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 9efb551..f1fc045 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -197,19 +197,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 filters.push(Box::new(ExplorationFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 filters.push(Box::new(ExplorationFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -252,7 +252,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = priority_level_str.parse::<i32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 909493e..67df7a2 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -87,13 +87,13 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                     Rule::TRACEGEN_LOGGER_depth => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                         generation = TracegenProcessLoggerGeneration::atExactDepth(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_modulo => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
-- 
2.43.0


From 0e23e94054885617ad52a1ff6f02f7bc1c10788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 22/51] fix: periods of 0 are rejected instead of dividing by
 them

---
 src/io/input/hcf/ana/options.rs      | 3 +++
 src/io/input/hcf/loggers/tracegen.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index db97cc0..d8b907a 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -459,6 +459,9 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = modulo_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
                                 let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
+                                if my_val == 0 {
+                                    return Err(HibouParsingError::HcfSetupError("the period of local analyses cannot be 0".to_string()));
+                                }
                                 modulo_each_X_steps = my_val;
                             },
                             _ => {
diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 67df7a2..2fdef54 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -94,6 +94,9 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
                         let my_val : u32 = content_str.parse::<u32>().map_err(|e| HibouParsingError::HcfSetupError(e.to_string()))?;
+                        if my_val == 0 {
+                            return Err(HibouParsingError::HcfSetupError("the period of trace generation cannot be 0".to_string()));
+                        }
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
-- 
2.43.0


From 3da241b4dcc76201b7f7a2e1c74ec409a92e75cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 23/51] fix: a file without extension gives an error instead of
 a panic

---
 src/io/input/hcf/ana/interface.rs   | 2 +-
 src/io/input/hcf/canon/interface.rs | 2 +-
 src/io/input/hcf/explo/interface.rs | 2 +-
 src/io/input/hif/interface.rs       | 2 +-
 src/io/input/hsf/interface.rs       | 2 +-
 src/io/input/htf/interface.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/input/hcf/ana/interface.rs b/src/io/input/hcf/ana/interface.rs
index c96ef64..d9134b0 100644
--- a/src/io/input/hcf/ana/interface.rs
+++ b/src/io/input/hcf/ana/interface.rs
@@ -37,7 +37,7 @@ use crate::io::input::hcf::ana::options::{HibouAnalyzeOptions, parse_analyze_opt
 pub fn parse_hcf_file_for_ana(gen_ctx : &GeneralContext,
                               file_path : &str) -> Result<HibouAnalyzeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/canon/interface.rs b/src/io/input/hcf/canon/interface.rs
index d95c342..54d8ef4 100644
--- a/src/io/input/hcf/canon/interface.rs
+++ b/src/io/input/hcf/canon/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::canon::options::{HibouCanonizeOptions, parse_canonize
 pub fn parse_hcf_file_for_canonize(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouCanonizeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/explo/interface.rs b/src/io/input/hcf/explo/interface.rs
index ef35f7a..a3157e2 100644
--- a/src/io/input/hcf/explo/interface.rs
+++ b/src/io/input/hcf/explo/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::explo::options::{HibouExploreOptions, parse_explore_o
 pub fn parse_hcf_file_for_explore(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouExploreOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hif/interface.rs b/src/io/input/hif/interface.rs
index 6f022da..10864a9 100644
--- a/src/io/input/hif/interface.rs
+++ b/src/io/input/hif/interface.rs
@@ -30,7 +30,7 @@ use crate::io::file_extensions::{HIBOU_INTERACTION_FILE_EXTENSION};
 
 pub fn parse_hif_file(gen_ctx : &GeneralContext, file_path : &str) -> Result<Interaction,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_INTERACTION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_INTERACTION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hsf/interface.rs b/src/io/input/hsf/interface.rs
index 6cf1818..ccdebbc 100644
--- a/src/io/input/hsf/interface.rs
+++ b/src/io/input/hsf/interface.rs
@@ -26,7 +26,7 @@ use crate::io::input::hsf::implem::parse_hsf_string;
 
 pub fn parse_hsf_file(file_path : &str) -> Result<GeneralContext,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_SIGNATURE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_SIGNATURE_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/htf/interface.rs b/src/io/input/htf/interface.rs
index 63aaf32..83cd434 100644
--- a/src/io/input/htf/interface.rs
+++ b/src/io/input/htf/interface.rs
@@ -40,7 +40,7 @@ use crate::io::input::htf::parser::{HtfParser,Rule};
 pub fn parse_htf_file(gen_ctx : &GeneralContext,
                       file_path : &str) -> Result<(CoLocalizations,MultiTrace),HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_TRACE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_TRACE_FILE_EXTENSION.to_string()));
     }
-- 
2.43.0


From 996380134857cbe408809dbbadc1a4df7cef76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:11 +0000
Subject: [PATCH 24/51] fix: co-localizations without any lifeline are written
 in a form that can be read back

---
 src/io/output/to_hfiles/trace/multi_trace.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/trace/multi_trace.rs b/src/io/output/to_hfiles/trace/multi_trace.rs
index 964e746..caa270e 100644
--- a/src/io/output/to_hfiles/trace/multi_trace.rs
+++ b/src/io/output/to_hfiles/trace/multi_trace.rs
@@ -37,7 +37,12 @@ pub fn multi_trace_as_htf_encoding(gen_ctx : &GeneralContext,
         for lf_id in coloc_lfs.iter().sorted() {
             lf_names.push( gen_ctx.get_lf_name(*lf_id).unwrap() );
         }
-        canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        if lf_names.is_empty() {
+            // there is no lifeline to list
+            canal_string.push_str( "[#any] " );
+        } else {
+            canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        }
         // ***
         let mut trace_text_elements = vec![];
         for actions in canal_trace {
-- 
2.43.0


From ec1f1d8519ccb44c5cc0dd9139ba7b3527087e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:09 +0000
Subject: [PATCH 25/51] fix: integers of configuration files can be followed by
 a comment

---
 src/io/input/hcf/hcf_syntax.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index 386c2fe..04521d5 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -92,7 +92,7 @@ OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 OPTION_LOGGER_KIND = _{ OPTION_GRAPHIC_LOGGER | OPTION_TRACEGEN_LOGGER | OPTION_NFAIT_LOGGER }
 OPTION_LOGGER_DECL = { "loggers" ~ "=" ~ "[" ~ OPTION_LOGGER_KIND ~ ("," ~ OPTION_LOGGER_KIND)* ~ (",")? ~ "]" }
 // ***********************************************
-ARITH_INTEGER = { "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
+ARITH_INTEGER = @{ "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
 // ***********************************************
 OPTION_PRIORITY_emission = { "emission" }
 OPTION_PRIORITY_reception = { "reception" }
-- 
2.43.0


From 819ea1c017b864443f0f5a75aa5d82f86dc17168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 26/51] fix: the alphabet of an automaton includes the
 multi-actions of the interaction

nfa_analyze re-enacted an unknown multi-action as another one, the
metrics dropped the transitions labelled by multi-actions and glosem
panicked on them.
---
 src/nfa_translation/alphabet.rs    | 67 +++++++++++++++++++++++++++++-
 src/nfa_translation/experiments.rs |  4 +-
 src/ui/commands/cli_get_metrics.rs |  6 +--
 src/ui/commands/cli_glosem.rs      |  9 ++--
 src/ui/commands/cli_nfa_ana.rs     |  7 ++--
 5 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/src/nfa_translation/alphabet.rs b/src/nfa_translation/alphabet.rs
index 88ba4d4..16265c8 100644
--- a/src/nfa_translation/alphabet.rs
+++ b/src/nfa_translation/alphabet.rs
@@ -17,7 +17,10 @@ limitations under the License.
 
 use std::collections::BTreeSet;
 use crate::core::general_context::GeneralContext;
+use crate::core::execution::trace::from_model::from_model::PrimitiveInterpretableAsTraceAction;
 use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
+use crate::core::language::syntax::action::CommunicationSynchronicity;
+use crate::core::language::syntax::interaction::Interaction;
 
 pub fn get_alphabet_from_gen_ctx(gen_ctx : &GeneralContext) -> Vec<BTreeSet<TraceAction>> {
     let mut alphabet = vec![];
@@ -28,4 +31,66 @@ pub fn get_alphabet_from_gen_ctx(gen_ctx : &GeneralContext) -> Vec<BTreeSet<Trac
         }
     }
     alphabet
-}
\ No newline at end of file
+}
+
+/** The atomic actions of the context and the multi-actions that the interaction may express. **/
+pub fn get_alphabet_from_gen_ctx_and_interaction(gen_ctx : &GeneralContext,
+                                                 int : &Interaction) -> Vec<BTreeSet<TraceAction>> {
+    let mut alphabet = get_alphabet_from_gen_ctx(gen_ctx);
+    for letter in get_letters_of_interaction(int) {
+        if !alphabet.contains(&letter) {
+            alphabet.push(letter);
+        }
+    }
+    alphabet
+}
+
+fn get_letters_of_interaction(int : &Interaction) -> BTreeSet<BTreeSet<TraceAction>> {
+    fn letters_of_leaf(actions : BTreeSet<TraceAction>,
+                       synchronicity : &CommunicationSynchronicity) -> BTreeSet<BTreeSet<TraceAction>> {
+        match synchronicity {
+            CommunicationSynchronicity::Synchronous => {
+                btreeset!{actions}
+            },
+            CommunicationSynchronicity::Asynchronous => {
+                actions.into_iter().map(|x| btreeset!{x}).collect()
+            }
+        }
+    }
+    match int {
+        Interaction::Empty => {
+            btreeset!{}
+        },
+        Interaction::Emission(em_act) => {
+            letters_of_leaf(em_act.get_all_atomic_actions(), &em_act.synchronicity)
+        },
+        Interaction::Reception(rc_act) => {
+            letters_of_leaf(rc_act.get_all_atomic_actions(), &rc_act.synchronicity)
+        },
+        Interaction::Loop(_,i1) => {
+            get_letters_of_interaction(i1)
+        },
+        Interaction::Sync(sync_acts,i1,i2) => {
+            let letters1 = get_letters_of_interaction(i1);
+            let letters2 = get_letters_of_interaction(i2);
+            // multi-actions of both operands that synchronize
+            let mut letters : BTreeSet<BTreeSet<TraceAction>> = letters1.union(&letters2).cloned().collect();
+            for letter1 in &letters1 {
+                for letter2 in &letters2 {
+                    if sync_acts.iter().any(|x| letter1.contains(x) && letter2.contains(x)) {
+                        letters.insert( letter1.union(letter2).cloned().collect() );
+                    }
+                }
+            }
+            letters
+        },
+        Interaction::Strict(i1,i2) |
+        Interaction::Seq(i1,i2) |
+        Interaction::CoReg(_,i1,i2) |
+        Interaction::Alt(i1,i2) |
+        Interaction::Par(i1,i2) |
+        Interaction::And(i1,i2) => {
+            get_letters_of_interaction(i1).union(&get_letters_of_interaction(i2)).cloned().collect()
+        }
+    }
+}
diff --git a/src/nfa_translation/experiments.rs b/src/nfa_translation/experiments.rs
index 78fd324..84252c3 100644
--- a/src/nfa_translation/experiments.rs
+++ b/src/nfa_translation/experiments.rs
@@ -22,7 +22,7 @@ use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::Interaction;
-use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
+use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx_and_interaction;
 use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 
@@ -66,7 +66,7 @@ pub fn run_nfa_generation_experiment(int : Interaction,
                                      num_tries_for_median : u32,
                                      state_lim : usize) -> NfaGenerationExperimentResults {
 
-    let alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+    let alphabet = get_alphabet_from_gen_ctx_and_interaction(&gen_ctx,&int);
 
     let mut nfa_operational = AutNFA::new_void_object(hashset!{0});
     let mut nfa_operational_times = vec![];
diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index 705c52c..b3270dc 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -21,7 +21,7 @@ use clap::ArgMatches;
 use crate::core::language::syntax::metrics::InteractionMetrics;
 use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::input::hsf::interface::parse_hsf_file;
-use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
+use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx_and_interaction;
 use crate::nfa_translation::canonize::canonize_interaction;
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 use crate::process::canon::param::default::DefaultCanonizationProcess;
@@ -61,7 +61,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             ret_print.append(&mut imetrics.string_summary());
                         },
                         "operatNFA" => {
-                            let alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+                            let alphabet = get_alphabet_from_gen_ctx_and_interaction(&gen_ctx,&int);
 
                             let mut nfa = AutNFA::new_void_object(hashset!{0});
                             let mut durations = vec![];
@@ -88,7 +88,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             ret_print.push( format!("synthesis time (median of 5)  : {:}", median_duration));
                         },
                         "minDFA" => {
-                            let alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+                            let alphabet = get_alphabet_from_gen_ctx_and_interaction(&gen_ctx,&int);
                             let (nfa,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index 1380d4a..2a3ea4c 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -34,7 +34,7 @@ use crate::core::execution::trace::trace::TraceAction;
 use crate::io::input::hsf::interface::parse_hsf_file;
 use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
-use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
+use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx_and_interaction;
 use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
@@ -77,12 +77,13 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                         }
                     }
 
+                    let alphabet = get_alphabet_from_gen_ctx_and_interaction(&gen_ctx,&int);
                     let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
                         &gen_ctx,
                         &int,
-                        get_alphabet_from_gen_ctx(&gen_ctx));
+                        alphabet.clone());
 
-                    let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                    let printer = ActionNFAITPrinter::new(alphabet,gen_ctx);
 
                     let mut ret_print = vec![];
                     // ***
@@ -101,7 +102,7 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                     /*
                     let (compositional_nfa,duration) = get_nfa_from_interaction_via_composition(&printer.gen_ctx,
                                                                                                 &int,
-                                                                                                get_alphabet_from_gen_ctx(&printer.gen_ctx));
+                                                                                                printer.index_to_action_map.clone());
                     ret_print.push( format!("compositional NFA : time : {:?} , num states {:?}", duration, compositional_nfa.transitions.len() ) );
 
                     // ***
diff --git a/src/ui/commands/cli_nfa_ana.rs b/src/ui/commands/cli_nfa_ana.rs
index eb34da5..c0204a3 100644
--- a/src/ui/commands/cli_nfa_ana.rs
+++ b/src/ui/commands/cli_nfa_ana.rs
@@ -48,7 +48,7 @@ use crate::io::input::hsf::interface::parse_hsf_file;
 use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::input::htf::interface::parse_htf_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
-use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
+use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx_and_interaction;
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
@@ -83,12 +83,13 @@ pub fn cli_nfa_ana(matches : &ArgMatches) -> (Vec<String>,u32) {
                             }
                             let trace = multi_trace.remove(0);
 
+                            let alphabet = get_alphabet_from_gen_ctx_and_interaction(&gen_ctx,&int);
                             let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
                                 &gen_ctx,
                                 &int,
-                                get_alphabet_from_gen_ctx(&gen_ctx));
+                                alphabet.clone());
 
-                            let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                            let printer = ActionNFAITPrinter::new(alphabet,gen_ctx);
 
                             if matches.is_present("draw_transformation") {
                                 let int_name = format!("{}_int",file_name);
-- 
2.43.0


From 4704c036227dec503330b6263557100e932285b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 27/51] fix: traces generated with a partial partition of the
 lifelines

An action on a lifeline that the partition leaves out made the tool
panic.
---
 src/io/input/hcf/loggers/tracegen.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 2fdef54..9c2e7c1 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -130,6 +130,13 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                             colocs.push(coloc);
                         }
                         // ***
+                        // lifelines that are left out are co-localized with no other (as in multi-trace files)
+                        for lf_id in 0..gen_ctx.get_lf_num() {
+                            if !got_lfs.contains(&lf_id) {
+                                colocs.push(btreeset!{lf_id});
+                            }
+                        }
+                        // ***
                         co_localizations = CoLocalizations::new(colocs);
                     },
                     _ => {
-- 
2.43.0


From c17db4b972a7638de6d3aeb7d605b4c3356b01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 28/51] fix: random slices can include the last action of a
 component

---
 src/trace_manip/slice/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index f8b47c6..a049851 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -85,7 +85,7 @@ fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usiz
     if length == 0 {
         return (0,0);
     }
-    let rng_indices = Uniform::from(0..length );
+    let rng_indices = Uniform::from(0..(length + 1) );
     // ***
     let (id1,id2) : (usize,usize);
     match kind {
-- 
2.43.0


From dace96641188a43ca5daf434b67c6737a53b8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 29/51] fix: wide random suffixes keep at least half of each
 component

---
 src/trace_manip/slice/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index a049851..e5a5638 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -128,7 +128,7 @@ fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (us
         },
         &SliceKind::Suffix => {
             let rng_indices = Uniform::from(0..((length/2) + 1) );
-            id1 = length - rng_indices.sample(rng);
+            id1 = (length/2) - rng_indices.sample(rng);
             id2 = length;
         }
     }
-- 
2.43.0


From 017e83c412b2896619c62fcdea3b0821e893cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 30/51] fix: noise limited to one action per component, and to
 the maximum number of inserts

---
 src/trace_manip/mutate/insert_noise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index ba59ec5..851a8db 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -94,7 +94,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
     // ***
     let mut rem_num_inserts : u32;
     if one_per_compo_max {
-        rem_num_inserts = max_num_inserts.max(multi_trace.len() as u32);
+        rem_num_inserts = max_num_inserts.min(multi_trace.len() as u32);
     } else {
         rem_num_inserts = max_num_inserts;
     }
@@ -116,6 +116,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
             } else {
                 mutate_vector_by_insert(&mut rng,component,btreeset!{to_insert});
             }
+            seen_colocs.insert(coloc_id);
             rem_num_inserts -= 1;
         }
     }
-- 
2.43.0


From c023943c3f2b9f930f12b68a7437690fdc586f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 31/51] fix: the number of swapped components is limited by its
 maximum and by the number of components

---
 src/trace_manip/mutate/swap_component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/swap_component.rs b/src/trace_manip/mutate/swap_component.rs
index 5830160..034d7f0 100644
--- a/src/trace_manip/mutate/swap_component.rs
+++ b/src/trace_manip/mutate/swap_component.rs
@@ -65,7 +65,7 @@ fn mutate_by_swapping_components(multi_trace_1 : &MultiTrace, multi_trace_2 : &M
     let mut compos_indices : Vec<usize> = (0..(num_compos as usize)).collect();
     compos_indices.shuffle(&mut rng);
     // ***
-    let mut rem_num_swaps = max_num_swaps.max(num_compos - 1);
+    let mut rem_num_swaps = max_num_swaps.min(num_compos.saturating_sub(1));
     // ***
     let mut mutated_mt = multi_trace_1.clone();
     while rem_num_swaps > 0 {
-- 
2.43.0


From ffba2fd47893a3e5db06522964d96de283739d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 32/51] fix: the folder of a mutant with removed actions is
 created

---
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index eb81f62..c839f0f 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -15,6 +15,7 @@ limitations under the License.
 */
 
 
+use std::fs;
 use std::path::PathBuf;
 use rand::rngs::ThreadRng;
 use rand::seq::SliceRandom;
@@ -39,6 +40,8 @@ pub fn generate_remove_actions_mutant(gen_ctx : &GeneralContext,
             [&file_name].iter().collect()
         },
         Some( parent ) => {
+            // creates directory
+            fs::create_dir_all(parent).unwrap();
             [parent, &file_name].iter().collect()
         }
     };
-- 
2.43.0


From bd64173fc3af5a393d04c940a81a009cfd5070ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:27 +0000
Subject: [PATCH 33/51] fix: mutants of multi-traces without components, or
 without any message to insert

---
 src/trace_manip/mutate/insert_noise.rs   | 4 ++++
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 src/trace_manip/mutate/swap_actions.rs   | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index 851a8db..7c7da82 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -98,6 +98,10 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
     } else {
         rem_num_inserts = max_num_inserts;
     }
+    // without components or messages there is nothing that could be inserted
+    if multi_trace.is_empty() || gen_ctx.get_ms_num() == 0 {
+        return multi_trace.clone();
+    }
     // ***
     let mut rng = rand::thread_rng();
     let rng_coloc_indices = Uniform::from(0..multi_trace.len() );
diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index c839f0f..7465a0a 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -63,6 +63,9 @@ fn mutate_by_removing_actions(gen_ctx : &GeneralContext,
                              max_num_removes : u32) -> MultiTrace {
     // ***
     let mut rem_num_removes = max_num_removes;
+    if multi_trace.is_empty() {
+        return multi_trace.clone();
+    }
     // ***
     let mut rng = rand::thread_rng();
     let rng_coloc_indices = Uniform::from(0..multi_trace.len() );
diff --git a/src/trace_manip/mutate/swap_actions.rs b/src/trace_manip/mutate/swap_actions.rs
index 34bbf25..efb23fe 100644
--- a/src/trace_manip/mutate/swap_actions.rs
+++ b/src/trace_manip/mutate/swap_actions.rs
@@ -61,6 +61,9 @@ pub fn generate_swap_actions_mutant(gen_ctx : &GeneralContext,
 fn mutate_by_swapping_actions(multi_trace : &MultiTrace, max_num_swaps : u32) -> MultiTrace {
     // ***
     let mut rem_num_swaps = max_num_swaps.min(multi_trace_max_swap(multi_trace));
+    if multi_trace.is_empty() {
+        return multi_trace.clone();
+    }
     // ***
     let mut rng = rand::thread_rng();
     let rng_coloc_indices = Uniform::from(0..multi_trace.len() );
-- 
2.43.0


From ac9829ef4eeed625adb8e0c2d40c1ecde6d36c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:38 +0000
Subject: [PATCH 34/51] fix: the minDFA metrics are those of the minimal
 automaton

---
 src/ui/commands/cli_get_metrics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index b3270dc..8fac79f 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use autour_core::nfa::nfa::AutNFA;
+use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use clap::ArgMatches;
 use crate::core::language::syntax::metrics::InteractionMetrics;
@@ -92,7 +93,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             let (nfa,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
-                            let dfa = nfa.to_dfa();
+                            let dfa = nfa.to_dfa().minimize();
                             let num_states = dfa.transitions.len();
                             let num_edges = dfa.transitions.iter()
                                 .fold(0,|x,t|
-- 
2.43.0


From 488452c3e02bedfa0135097b24ee5b35b4fb4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:39 +0000
Subject: [PATCH 35/51] fix: random interactions generated with a given seed
 are always the same

---
 src/experiments/interaction_random_gen/probas.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/experiments/interaction_random_gen/probas.rs b/src/experiments/interaction_random_gen/probas.rs
index 98d022d..06e67b2 100644
--- a/src/experiments/interaction_random_gen/probas.rs
+++ b/src/experiments/interaction_random_gen/probas.rs
@@ -66,7 +66,10 @@ impl InteractionSymbolsProbabilities {
         let mut ordered_symbols = vec![];
         let mut ordered_bounds = vec![0.0_f32];
         let mut sum = 0.0;
-        for (s,p) in map {
+        // sorted so that what is generated does not depend on the iteration order of the map
+        let mut pairs : Vec<(InteractionGenerationSymbol,f32)> = map.into_iter().collect();
+        pairs.sort_by_key(|(s,_)| *s);
+        for (s,p) in pairs {
             if p < 0.0 - 1e-6 || p > 1.0 + 1e-6 {
                 return Err(InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1);
             }
-- 
2.43.0


From ed4d393de76c01761036cb68502f13975c6d8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 36/51] fix: random interactions over a signature with a single
 lifeline

---
 src/experiments/interaction_random_gen/gen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/experiments/interaction_random_gen/gen.rs b/src/experiments/interaction_random_gen/gen.rs
index 30113be..56612ea 100644
--- a/src/experiments/interaction_random_gen/gen.rs
+++ b/src/experiments/interaction_random_gen/gen.rs
@@ -60,7 +60,10 @@ pub fn generate_random_pattern(signature : &GeneralContext,
     let mut lifelines : Vec<usize> = (0..signature.get_lf_num()).collect();
     lifelines.shuffle(rng);
     let orig_lf_id = lifelines.pop().unwrap();
-    let targets : Vec<EmissionTargetRef> = if is_broadcast {
+    let targets : Vec<EmissionTargetRef> = if lifelines.is_empty() {
+        // there is no other lifeline
+        vec![]
+    } else if is_broadcast {
         let number_of_targets = rng.gen_range(0..lifelines.len());
         lifelines[0..number_of_targets].iter()
             .map(|x| EmissionTargetRef::Lifeline(*x)).collect()
-- 
2.43.0


From e7f77993905fbf1357e67c101cbfd16c5cd37b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 37/51] fix: the folder of generated random interactions is
 created

---
 src/ui/commands/cli_rng_gen_interactions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index cdfe401..adbc711 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -154,6 +154,9 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 output_folder)
             );
 
+            // creates directory if not exist
+            std::fs::create_dir_all(&output_folder).unwrap();
+
             let mut memoized_ints = HashSet::new();
 
             let mut rng = StdRng::seed_from_u64(seed);
-- 
2.43.0


From d4e20a777d9ab552ab3eb8c6846dc645a103d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 38/51] fix: name of the probabilities used for random
 interactions

---
 src/ui/commands/cli_rng_gen_interactions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index adbc711..37b3254 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -120,7 +120,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                         InteractionSymbolsProbabilities::conservative()
                     },
                     "protocols_with_coreg" => {
-                        probas_name = "conservative";
+                        probas_name = "protocols_with_coreg";
                         InteractionSymbolsProbabilities::protocols_with_coreg()
                     },
                     "default" => {
-- 
2.43.0


From 967bce03e8f690ac8445e82ffbafe73da6ffdf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 39/51] fix: rng_gen_interactions declares its number of tries

---
 src/ui/hibou_cli.yml | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ui/hibou_cli.yml b/src/ui/hibou_cli.yml
index c465237..cc539c6 100644
--- a/src/ui/hibou_cli.yml
+++ b/src/ui/hibou_cli.yml
@@ -436,6 +436,11 @@ subcommands:
                   short: i
                   takes_value: true
                   help: number of interactions to generate (default 350)
+              - num_tries:
+                  required: false
+                  short: t
+                  takes_value: true
+                  help: maximum number of tries (default 3 times the number of interactions)
               - probas:
                   required: false
                   short: p
-- 
2.43.0


From 7b370c0b431af7266013265b5a9cab501a59c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 40/51] fix: names of the kinds of loops in plantuml sequence
 diagrams

---
 src/plantuml/sequence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/sequence.rs b/src/plantuml/sequence.rs
index 9e3df57..76c0129 100644
--- a/src/plantuml/sequence.rs
+++ b/src/plantuml/sequence.rs
@@ -130,13 +130,13 @@ fn to_plant_uml_sd_rec(output_file : &mut File,
             // ***
             match kind {
                 &LoopKind::SStrictSeq => {
-                    output_file.write( "group loopX\n".as_bytes() );
+                    output_file.write( "group loopS\n".as_bytes() );
                 },
                 &LoopKind::HHeadFirstWS => {
                     output_file.write( "group loopH\n".as_bytes() );
                 },
                 &LoopKind::WWeakSeq => {
-                    output_file.write( "group loopS\n".as_bytes() );
+                    output_file.write( "group loopW\n".as_bytes() );
                 },
                 &LoopKind::PInterleaving => {
                     output_file.write( "group loopP\n".as_bytes() );
-- 
2.43.0


From 5233fcfd0a3caa614597d28ef8ad5756e4edff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 41/51] fix: final transitions of lifelines and loops without
 any action in plantuml automata products

---
 src/plantuml/automata_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 15d67d6..1da536c 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -37,7 +37,7 @@ pub fn to_plant_uml_ap(output_path : &String,
         let projected_int = interaction.eliminate_lifelines(&lfs_to_remove);
         output_file.write( format!("state lf_{} {{\n",lf_name).as_bytes() );
         let (last_state_id,_) = to_plant_uml_ap_rec(&mut output_file, &projected_int, gen_ctx, lf_id, 0, 1);
-        output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last_state_id).as_bytes() );
+        output_file.write( format!("{} --> [*]\n",get_last_label(lf_id, last_state_id)).as_bytes() );
         output_file.write( "}\n".as_bytes() );
     }
     output_file.write( "@enduml\n".as_bytes() );
@@ -159,7 +159,7 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             // ***
             let (last,count) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);
             new_state_count = count;
-            output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last).as_bytes() );
+            output_file.write( format!("{} --> [*]\n",get_last_label(lf_id, last)).as_bytes() );
             // ***
             output_file.write( "}\n".as_bytes() );
             output_file.write(format!("{} --> {}\n", last_state_label, loop_label).as_bytes());
-- 
2.43.0


From 88c97e7429819d4719127075215314b01cb62e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 42/51] fix: emissions to gates in plantuml automata products

---
 src/plantuml/automata_product.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 1da536c..6d0180e 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -20,6 +20,7 @@ use std::io::Write;
 
 use crate::core::general_context::GeneralContext;
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
+use crate::core::language::syntax::action::EmissionTargetRef;
 use crate::core::language::syntax::interaction::Interaction;
 use crate::core::language::syntax::util::get_recursive_frag::*;
 
@@ -56,15 +57,16 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
         },
         &Interaction::Emission(ref em_act) => {
             let ms_name = gen_ctx.get_ms_name(em_act.ms_id).unwrap();
-            match em_act.targets.len() {
-                0 => {
+            let message_passing = em_act.targets.iter().any(|target_ref| matches!(target_ref, EmissionTargetRef::Lifeline(_)));
+            match message_passing {
+                false => {
                     let transition_label = format!("!{}",ms_name);
                     let new_state_label = format!("lf{}_s{}",lf_id,state_count);
                     let last_state_label = get_last_label(lf_id, last_state);
                     output_file.write( format!("{} --> {} : {}\n",last_state_label,new_state_label,transition_label).as_bytes() );
                     return (state_count,state_count + 1);
                 },
-                _ => {
+                true => {
                     panic!("projection on automata cannot have message passing (check if on itself)");
                 }
             }
-- 
2.43.0


From fa10c4e1136c7161fecb3e91be6ec59d945c53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 43/51] fix: identifiers of steps on several positions in
 graphical outputs

---
 src/core/language/position/position.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/language/position/position.rs b/src/core/language/position/position.rs
index 04f0b6a..f76cf8d 100644
--- a/src/core/language/position/position.rs
+++ b/src/core/language/position/position.rs
@@ -41,13 +41,13 @@ impl Debug for Position {
                 }
             },
             Position::Left(ref in_self) => {
-                write!(f,"1{:}",in_self)
+                write!(f,"1{:?}",in_self)
             },
             Position::Right(ref in_self) => {
-                write!(f,"2{:}",in_self)
+                write!(f,"2{:?}",in_self)
             },
             Position::Both(ref sub1, ref sub2) => {
-                write!(f,"H1{:}_2{:}H",sub1,sub2)
+                write!(f,"H1{:?}_2{:?}H",sub1,sub2)
             }
         }
     }
-- 
2.43.0


From 261356186350991add2fbfed51f7119ae4ab7e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 44/51] fix: lifelines named on the elimination steps of
 graphical outputs

---
 src/io/output/draw_transitions/draw_hiding.rs | 10 +++++++---
 src/loggers/graphviz/transition.rs            |  2 +-
 src/process/ana/loggers/glog/drawer.rs        |  5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/io/output/draw_transitions/draw_hiding.rs b/src/io/output/draw_transitions/draw_hiding.rs
index b3d28f6..852a51a 100644
--- a/src/io/output/draw_transitions/draw_hiding.rs
+++ b/src/io/output/draw_transitions/draw_hiding.rs
@@ -14,7 +14,7 @@ See the License for the specific language governing permissions and
 limitations under the License.
 */
 
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::path::Path;
 
 use image::Rgb;
@@ -31,7 +31,7 @@ use crate::io::output::draw_commons::make_image_of_text::new_image_with_colored_
 
 pub fn draw_hiding(path : &Path,
                    gen_ctx : &GeneralContext,
-                   lfs_to_hide : &HashSet<usize>) {
+                   lfs_to_hide : &BTreeSet<usize>) {
     // ***
     let mut text_lines : Vec<Vec<TextToPrint>> = Vec::new();
     // ***
@@ -48,7 +48,11 @@ pub fn draw_hiding(path : &Path,
             let mut to_add = names_of_lfs.into_iter()
                 .fold(vec![],
                       |prev,lf|
-                          [prev, vec![TextToPrint::new(",".to_string(),Rgb(HCP_Black)), lf]].concat());
+                          if prev.is_empty() {
+                              vec![lf]
+                          } else {
+                              [prev, vec![TextToPrint::new(",".to_string(),Rgb(HCP_Black)), lf]].concat()
+                          });
 
             ttp.append( &mut to_add);
         }
diff --git a/src/loggers/graphviz/transition.rs b/src/loggers/graphviz/transition.rs
index 6a56a60..a057e2a 100644
--- a/src/loggers/graphviz/transition.rs
+++ b/src/loggers/graphviz/transition.rs
@@ -77,7 +77,7 @@ impl InteractionProcessDrawer {
 
     pub(crate) fn make_graphic_logger_hiding(&self,
                                       gen_ctx : &GeneralContext,
-                                      lfs_to_hide: &HashSet<usize>,
+                                      lfs_to_hide: &BTreeSet<usize>,
                                       name : String) -> GraphVizNode {
         let image_file_path : PathBuf = [&self.temp_folder, &format!("{}.png",name)].iter().collect();
         // ***
diff --git a/src/process/ana/loggers/glog/drawer.rs b/src/process/ana/loggers/glog/drawer.rs
index 20e9b0b..f1d6cc4 100644
--- a/src/process/ana/loggers/glog/drawer.rs
+++ b/src/process/ana/loggers/glog/drawer.rs
@@ -135,8 +135,9 @@ impl GraphVizProcessDrawer<AnalysisConfig> for InteractionProcessDrawer {
 
         let step_name = format!("s_{}_{}", origin_state_id, target_state_id);
         match *step {
-            AnalysisStepKind::EliminateNoLongerObserved(ref lfs_to_hide) => {
-                self.make_graphic_logger_hiding(&context.gen_ctx,lfs_to_hide,step_name)
+            AnalysisStepKind::EliminateNoLongerObserved(ref coloc_ids_to_hide) => {
+                let lfs_to_hide = context.co_localizations.get_lf_ids_from_coloc_ids(coloc_ids_to_hide);
+                self.make_graphic_logger_hiding(&context.gen_ctx,&lfs_to_hide,step_name)
             },
             AnalysisStepKind::Execute(ref frt_elt, ref consu_set, ref sim_map) => {
                 self.make_graphic_logger_firing(&context.gen_ctx,
-- 
2.43.0


From c02275f7c9dab9a8cdfd51b15407723f29f8a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:43 +0000
Subject: [PATCH 45/51] fix: the budget of actions outside loops does not count
 those of loops under another operator

---
 .../execution/trace/from_model/interaction.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/core/execution/trace/from_model/interaction.rs b/src/core/execution/trace/from_model/interaction.rs
index 422114a..c1aefec 100644
--- a/src/core/execution/trace/from_model/interaction.rs
+++ b/src/core/execution/trace/from_model/interaction.rs
@@ -89,32 +89,32 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Par(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -122,8 +122,8 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return btreeset!{};
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -183,25 +183,25 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions().len();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Par(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Loop(_, i1) => {
                 return 0;
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             _ => {
                 panic!("non-conform interaction");
-- 
2.43.0


From 6beaf3279c715d39a698dd21f18aae6ad56cdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 46/51] fix: local analyses do not conclude from simulation
 budgets that depend on the other components

---
 src/process/ana/handling/local_analysis.rs |  7 +++++++
 src/process/ana/param/anakind.rs           | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/process/ana/handling/local_analysis.rs b/src/process/ana/handling/local_analysis.rs
index 779b7d5..3ca6312 100644
--- a/src/process/ana/handling/local_analysis.rs
+++ b/src/process/ana/handling/local_analysis.rs
@@ -76,6 +76,13 @@ pub fn is_dead_local_analysis(gen_ctx : &GeneralContext,
                               interaction : &Interaction,
                               multi_trace : &MultiTrace,
                               flags : &mut MultiTraceAnalysisFlags) -> Option<usize> {
+    // a local analysis may run out of simulation steps that the global analysis still has
+    // (because those depend on the other components), in which case it does not prove anything
+    if let AnalysisKind::Simulate(sim_config) = parent_analysis_kind {
+        if sim_config.sim_before && !sim_config.are_criteria_independent_from_other_components() {
+            return None;
+        }
+    }
     'iter_coloc : for (canal_id, colocalized_lfs) in co_localizations.locs_lf_ids.iter().enumerate() {
         let canal_flags: &mut TraceAnalysisFlags = flags.canals.get_mut(canal_id).unwrap();
         let canal_trace: &Trace = multi_trace.get(canal_id).unwrap();
diff --git a/src/process/ana/param/anakind.rs b/src/process/ana/param/anakind.rs
index fda2e0e..b3d0712 100644
--- a/src/process/ana/param/anakind.rs
+++ b/src/process/ana/param/anakind.rs
@@ -99,6 +99,22 @@ impl SimulationConfiguration {
         return SimulationConfiguration{sim_before,reset_crit_after_exec,multiply_by_multitrace_length,loop_crit,act_crit};
     }
 
+    /// whether the number of simulation steps that remain possible only depends on the simulation steps already taken,
+    /// and neither on the interaction that remains, nor on what is executed on other components
+    pub fn are_criteria_independent_from_other_components(&self) -> bool {
+        match (&self.loop_crit,&self.act_crit) {
+            (SimulationLoopCriterion::None,SimulationActionCriterion::None) => {
+                return true;
+            },
+            (SimulationLoopCriterion::MaxNum,_) | (SimulationLoopCriterion::MaxDepth,_) | (_,SimulationActionCriterion::MaxNumOutsideLoops) => {
+                return false;
+            },
+            _ => {
+                return !self.reset_crit_after_exec && !self.multiply_by_multitrace_length;
+            }
+        }
+    }
+
     pub fn get_reset_rem_loop(&self,
                               multi_trace_len : usize,
                               interaction : &Interaction) -> u32 {
-- 
2.43.0


From a952a15977ce82f4b3a781ee12aa04b723bd2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:02 +0000
Subject: [PATCH 47/51] fix: comparing interactions with '<' agrees with their
 order

---
 src/core/language/ord/action.rs         | 12 ++++++++++++
 src/core/language/ord/interaction.rs    |  6 ++++++
 src/core/language/syntax/action.rs      |  4 ++--
 src/core/language/syntax/interaction.rs |  2 +-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/language/ord/action.rs b/src/core/language/ord/action.rs
index d893830..f621ad4 100644
--- a/src/core/language/ord/action.rs
+++ b/src/core/language/ord/action.rs
@@ -43,6 +43,12 @@ impl Ord for EmissionTargetRef {
 
 
 
+impl PartialOrd for EmissionAction {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Ord for EmissionAction {
     fn cmp(&self, other: &Self) -> Ordering {
         if self.ms_id < other.ms_id {
@@ -93,6 +99,12 @@ impl Ord for EmissionAction {
 
 
 
+impl PartialOrd for ReceptionAction {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Ord for ReceptionAction {
     fn cmp(&self, other: &Self) -> Ordering {
         if self.ms_id < other.ms_id {
diff --git a/src/core/language/ord/interaction.rs b/src/core/language/ord/interaction.rs
index 6f9d703..098dabd 100644
--- a/src/core/language/ord/interaction.rs
+++ b/src/core/language/ord/interaction.rs
@@ -18,6 +18,12 @@ limitations under the License.
 use std::cmp::Ordering;
 use crate::core::language::syntax::interaction::Interaction;
 
+impl PartialOrd for Interaction {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Ord for Interaction {
     fn cmp(&self, other: &Self) -> Ordering {
         match (self,other) {
diff --git a/src/core/language/syntax/action.rs b/src/core/language/syntax/action.rs
index a7061b5..b267f48 100644
--- a/src/core/language/syntax/action.rs
+++ b/src/core/language/syntax/action.rs
@@ -32,7 +32,7 @@ pub enum CommunicationSynchronicity {
     Synchronous
 }
 
-#[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
+#[derive(Clone, PartialEq, Debug, Eq, Hash)]
 pub struct EmissionAction {
     pub origin_lf_id : usize,
     pub ms_id : usize,
@@ -49,7 +49,7 @@ impl EmissionAction {
     }
 }
 
-#[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
+#[derive(Clone, PartialEq, Debug, Eq, Hash)]
 pub struct ReceptionAction {
     pub origin_gt_id : Option<usize>,
     pub ms_id : usize,
diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index 04dbc90..c82b70e 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -41,7 +41,7 @@ impl LoopKind {
     }
 }
 
-#[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
+#[derive(Clone, PartialEq, Debug, Eq, Hash)]
 pub enum Interaction {
     Empty,
     Emission(EmissionAction),
-- 
2.43.0


From 14aa30bd49528bbdf21971e5d4115c279acc2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:10 +0000
Subject: [PATCH 48/51] fix: memoization keeps apart nodes with and without
 hidden components

---
 src/process/ana/node/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index 7c6d9d5..c8c4c13 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -58,7 +58,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
                 if my_canal.simulated_before < other_canal.simulated_before {
                     return false;
                 }
-                if my_canal.no_longer_observed && !other_canal.no_longer_observed {
+                if my_canal.no_longer_observed != other_canal.no_longer_observed {
                     return false;
                 }
             }
-- 
2.43.0


From 1ef2538fe826829450ae2721f1a70f7b2ed1bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:59 +0000
Subject: [PATCH 49/51] fix: local analyses do not conclude from simulation
 budgets on loops

---
 src/process/ana/param/anakind.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/process/ana/param/anakind.rs b/src/process/ana/param/anakind.rs
index b3d0712..cbdb928 100644
--- a/src/process/ana/param/anakind.rs
+++ b/src/process/ana/param/anakind.rs
@@ -101,16 +101,17 @@ impl SimulationConfiguration {
 
     /// whether the number of simulation steps that remain possible only depends on the simulation steps already taken,
     /// and neither on the interaction that remains, nor on what is executed on other components
+    /// (which may enter a loop without any simulation step)
     pub fn are_criteria_independent_from_other_components(&self) -> bool {
         match (&self.loop_crit,&self.act_crit) {
             (SimulationLoopCriterion::None,SimulationActionCriterion::None) => {
                 return true;
             },
-            (SimulationLoopCriterion::MaxNum,_) | (SimulationLoopCriterion::MaxDepth,_) | (_,SimulationActionCriterion::MaxNumOutsideLoops) => {
-                return false;
+            (SimulationLoopCriterion::None,SimulationActionCriterion::SpecificNum(_)) => {
+                return !self.reset_crit_after_exec && !self.multiply_by_multitrace_length;
             },
             _ => {
-                return !self.reset_crit_after_exec && !self.multiply_by_multitrace_length;
+                return false;
             }
         }
     }
-- 
2.43.0


From a97096dda4c3b86f5d893b0a2c64512965344780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 50/51] fix: local analyses do not conclude from any simulation
 budget

---
 src/process/ana/handling/local_analysis.rs |  2 +-
 src/process/ana/param/anakind.rs           | 20 +++++---------------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/process/ana/handling/local_analysis.rs b/src/process/ana/handling/local_analysis.rs
index 3ca6312..d5a661d 100644
--- a/src/process/ana/handling/local_analysis.rs
+++ b/src/process/ana/handling/local_analysis.rs
@@ -79,7 +79,7 @@ pub fn is_dead_local_analysis(gen_ctx : &GeneralContext,
     // a local analysis may run out of simulation steps that the global analysis still has
     // (because those depend on the other components), in which case it does not prove anything
     if let AnalysisKind::Simulate(sim_config) = parent_analysis_kind {
-        if sim_config.sim_before && !sim_config.are_criteria_independent_from_other_components() {
+        if sim_config.sim_before && !sim_config.is_independent_from_other_components() {
             return None;
         }
     }
diff --git a/src/process/ana/param/anakind.rs b/src/process/ana/param/anakind.rs
index cbdb928..1f2ac79 100644
--- a/src/process/ana/param/anakind.rs
+++ b/src/process/ana/param/anakind.rs
@@ -99,21 +99,11 @@ impl SimulationConfiguration {
         return SimulationConfiguration{sim_before,reset_crit_after_exec,multiply_by_multitrace_length,loop_crit,act_crit};
     }
 
-    /// whether the number of simulation steps that remain possible only depends on the simulation steps already taken,
-    /// and neither on the interaction that remains, nor on what is executed on other components
-    /// (which may enter a loop without any simulation step)
-    pub fn are_criteria_independent_from_other_components(&self) -> bool {
-        match (&self.loop_crit,&self.act_crit) {
-            (SimulationLoopCriterion::None,SimulationActionCriterion::None) => {
-                return true;
-            },
-            (SimulationLoopCriterion::None,SimulationActionCriterion::SpecificNum(_)) => {
-                return !self.reset_crit_after_exec && !self.multiply_by_multitrace_length;
-            },
-            _ => {
-                return false;
-            }
-        }
+    /// whether the simulation steps that remain possible on a component do not depend on the other components
+    /// (if there are criteria, a step that is executed on another component may
+    /// enter a loop or occur on this component without counting as a simulation step)
+    pub fn is_independent_from_other_components(&self) -> bool {
+        return self.loop_crit == SimulationLoopCriterion::None && self.act_crit == SimulationActionCriterion::None;
     }
 
     pub fn get_reset_rem_loop(&self,
-- 
2.43.0


From 8817a9185ea03ea626c0ded0268b721c2d1a9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:08 +0000
Subject: [PATCH 51/51] fix: the automaton of an interaction whose loops are
 all strict accepts all its traces

---
 src/nfa_translation/get_nfa_from_logger.rs | 40 +++++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 0caa60c..b42c278 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -22,16 +22,18 @@ use std::time::{Duration, Instant};
 use autour_core::nfa::nfa::AutNFA;
 use autour_core::traits::translate::AutTranslatable;
 use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
+use graph_process_manager_core::handler::filter::AbstractFilter;
 use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
 use graph_process_manager_core::manager::manager::GenericProcessManager;
 use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
 use graph_process_manager_loggers::nfait::logger::GenericNFAITLogger;
 use crate::core::execution::trace::trace::TraceAction;
 use crate::core::general_context::GeneralContext;
-use crate::core::language::syntax::interaction::Interaction;
+use crate::core::language::syntax::interaction::{Interaction,LoopKind};
 use crate::process::explo::conf::ExplorationConfig;
 use crate::process::explo::context::{ExplorationContext, ExplorationParameterization};
-use crate::process::explo::filter::filter::ExplorationFilter;
+use crate::process::explo::filter::elim::ExplorationFilterEliminationKind;
+use crate::process::explo::filter::filter::{ExplorationFilter,ExplorationFilterCriterion};
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 use crate::process::explo::node::ExplorationNodeKind;
 use crate::process::explo::priorities::ExplorationPriorities;
@@ -44,7 +46,14 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
             -> (AutNFA<usize>,Duration) {
 
     let usize_alphabet : HashSet<usize> = (0..base_alphabet.len()).collect();
-    let max_loop_depth = int.total_loop_num()*2;
+    // the executions of strict loops reach finitely many interactions, which memoization identifies :
+    // in contrast to the other loops, their number of instances needs not be bounded
+    let filters : Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion,ExplorationFilterEliminationKind>>> =
+        if has_only_strict_loops(int) {
+            vec![]
+        } else {
+            vec![Box::new(ExplorationFilter::MaxLoopInstanciation(int.total_loop_num()*2))]
+        };
     let nfa_logger = GenericNFAITLogger::new(
         ActionNFAITPrinter::new(base_alphabet,
                                 gen_ctx.clone()),
@@ -60,7 +69,7 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
         GenericProcessManager::new(explo_ctx,
                                    ExplorationParameterization{},
                                    delegate,
-                                   vec![Box::new(ExplorationFilter::MaxLoopInstanciation(max_loop_depth))],
+                                   filters,
                                    vec![Box::new(nfa_logger)],
                                    None,
                                    true);
@@ -83,4 +92,25 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
     nfa.alphabet = usize_alphabet;
     // ***
     return (nfa, elapsed_get_nfa);
-}
\ No newline at end of file
+}
+
+
+fn has_only_strict_loops(int : &Interaction) -> bool {
+    match int {
+        Interaction::Empty | Interaction::Emission(_) | Interaction::Reception(_) => {
+            true
+        },
+        Interaction::Strict(i1, i2)
+            | Interaction::Seq(i1, i2)
+            | Interaction::Par(i1, i2)
+            | Interaction::Alt(i1, i2)
+            | Interaction::And(i1, i2)
+            | Interaction::CoReg(_, i1, i2)
+            | Interaction::Sync(_, i1, i2) => {
+            has_only_strict_loops(i1) && has_only_strict_loops(i2)
+        },
+        Interaction::Loop(kind, i1) => {
+            *kind == LoopKind::SStrictSeq && has_only_strict_loops(i1)
+        }
+    }
+}
-- 
2.43.0

