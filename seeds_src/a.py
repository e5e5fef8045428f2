HS3 = "@message{a;b;c;x}\n@lifeline{l1;l2;l3}"
seed("c01_sync_par", "C01", [("src/core/execution/semantics/execute.rs", """            let acts1 = exres1.interaction.get_all_trace_actions();
            let acts2 = i2.get_all_trace_actions();
            // ***
            let sync_acts_as_set : BTreeSet<TraceAction> = BTreeSet::from_iter(sync_acts.iter().cloned());
            let intersetc1 = sync_acts_as_set.intersection(&acts1).count();
            let intersetc2 = sync_acts_as_set.intersection(&acts2).count();
            // ***
            let new_i : Interaction;
            if intersetc1 == 0 && intersetc2 == 0 {""", """            let acts1 = exres1.interaction.get_all_trace_actions();
            let acts2 = i2.get_all_trace_actions();
            // ***
            let sync_acts_as_set : BTreeSet<TraceAction> = BTreeSet::from_iter(sync_acts.iter().cloned());
            let intersetc1 = sync_acts_as_set.intersection(&acts1).count();
            let intersetc2 = sync_acts_as_set.intersection(&acts2).count();
            // ***
            let new_i : Interaction;
            if intersetc1 == 0 || intersetc2 == 0 {""")],
  "a synchronized product whose left operand has no synchronization action left after an independent step while the right one still has some",
  "the product is turned into an interleaving: the right operand performs synchronization actions alone",
  ana(HS3, "sync(l1!a)(alt(l2 -- b ->|, l1 -- a ->|), alt(l1 -- a ->|, o))", "{[#all] l2!b.l1!a}", "Fail", "@analyze_option{analysis_kind=accept}"))
seed("c02_prune_alt_empty", "C02", [("src/core/language/prune/interaction.rs", """                            (Interaction::Empty,Interaction::Loop(lk,i21)) => {
                                Interaction::Loop(lk,i21)
                            },""", """                            (Interaction::Empty,pi2) => {
                                pi2
                            },""")],
  "pruning of an alternative both branches of which avoid the lifelines, the left one becoming empty and the right one not",
  "pruning drops the empty behaviour of the alternative",
  rust("""use crate::core::language::prune::prunable::LifelinePrunable;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
fn em(l : usize, m : usize) -> Box<Interaction> {
    Box::new(Interaction::Emission(EmissionAction::new(l,m,CommunicationSynchronicity::Asynchronous,vec![])))
}
#[test]
fn demo() {
    let i = Interaction::Alt(Box::new(Interaction::Loop(LoopKind::SStrictSeq,em(0,0))), em(1,1));
    let p = i.prune(&std::iter::once(0).collect());
    assert!(p.express_empty());
}"""))
seed("c03_coreg_elim", "C03", [("src/core/language/eliminate_lf/interaction.rs", "                                if new_cr.len() > 0 {", "                                if new_cr.len() > 1 {")],
  "a co-region over several lifelines of which all but one are eliminated",
  "the remaining lifeline is no longer in a co-region, its actions get ordered",
  ana(HS3, "coreg(l1,l2)(l1 -- a -> l2, l1 -- b -> l2)", "{[l1] l1!b.l1!a; [l2]}", "WeakPass", "@analyze_option{analysis_kind=eliminate;local_analysis=none}"))
seed("c08_lackobs", "C08", [("src/process/ana/node/flags.rs", "            if trace.len() == canal_flags.consumed {\n                return true;", "            if trace.is_empty() {\n                return true;")],
  "a component consumed to its end, which was not empty, when another one is stuck",
  "Fail instead of an inconclusive verdict on an observation that can be completed",
  ana("@message{a;b;c}\n@lifeline{l1;l2}", "strict(l1 -- a ->|, l1 -- b ->|, l2 -- c ->|)", "{[l1] l1!a; [l2] l2!c}", "Inconc"))
seed("c09_hidden_pass", "C09", [("src/process/ana/node/flags.rs", "            if canal.no_longer_observed {\n                return true;", "            if canal.no_longer_observed && canal.consumed > 0 {\n                return true;")],
  "a component without any observation while the other ones are complete",
  "Pass on an incomplete multi-trace",
  ana(HS3, "seq(l1 -- a ->|, l2 -- b ->|)", "{[l1] l1!a; [l2]; [l3]}", "WeakPass", "@analyze_option{analysis_kind=eliminate}"))
seed("c10_sim_middle", "C10", [("src/process/ana/handling/matches.rs", """                                if canal_trace.len() == canal_flag.consumed {
                                    to_simulate_more.insert( canal_id, SimulationStepKind::AfterEnd);
                                } else {
                                    if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {""", """                                if canal_trace.len() == canal_flag.consumed {
                                    to_simulate_more.insert( canal_id, SimulationStepKind::AfterEnd);
                                } else {
                                    if self.ana_kind.sim_before() {""")],
  "simulation before the start, an action that matches but can also be skipped in the middle of a component",
  "a multi-trace with a hole in the middle is taken for a slice",
  ana(HS3, "strict(l1 -- a ->|, l1 -- b ->|, l1 -- b ->|, l1 -- c ->|)", "{[#all] l1!a.l1!b.l1!c}", "WeakFail", "@analyze_option{analysis_kind=simulate[before=true,loop none,act none];local_analysis=none}"))
seed("c12_node_bound", "C12", [("src/process/ana/filter/filter.rs", "                if node_counter >= *max_node_number {", "                if node_counter > *max_node_number {")],
  "an analysis that reaches its bound on the number of nodes",
  "one more node than the bound is explored",
  ana(HS3, "strict(l1 -- a ->|, l1 -- b ->|, l1 -- c ->|)", "{[#all] l1!a.l1!b.l1!c}", "Inconc", "@analyze_option{analysis_kind=accept;filters=[max_node_number=3]}"))
seed("c05_par_to_seq", "C05", [("src/core/transformation/transfofunc/par_to_seq.rs", """            let i1_lfs = i1.involved_lifelines();
            let i2_lfs = i2.involved_lifelines();""", """            // an operand cannot overtake on a lifeline on which it cannot start
            let i1_lfs = i1.involved_lifelines();
            let i2_lfs : std::collections::BTreeSet<usize> = global_frontier(i2,true).into_iter()
                .flat_map(|x| x.target_lf_ids.into_iter()).collect();""")],
  "an interleaving whose right operand starts on lifelines of its own and continues on a lifeline of the left operand",
  "an interleaving is rewritten into a weak sequence that has fewer behaviours",
  rust("""use crate::core::transformation::transfofunc::par_to_seq::transfo_par_to_seq;
use crate::core::language::syntax::interaction::Interaction;
use crate::core::language::syntax::action::*;
fn em(l : usize, m : usize) -> Box<Interaction> {
    Box::new(Interaction::Emission(EmissionAction::new(l,m,CommunicationSynchronicity::Asynchronous,vec![])))
}
#[test]
fn demo() {
    let i = Interaction::Par(em(0,0), Box::new(Interaction::Strict(em(1,0),em(0,1))));
    assert!(transfo_par_to_seq(&i).is_empty());
    let i = Interaction::Par(em(0,0), Box::new(Interaction::Strict(em(1,0),em(2,1))));
    assert_eq!(transfo_par_to_seq(&i).len(),1);
}"""))
