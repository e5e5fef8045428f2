seed("c04_alt_affected", "C04", [("src/core/language/prune/interaction.rs", """                    let pruned_i2 = i2.prune(lf_ids);
                    let mut aff = i1.involved_lifelines();
                    aff.extend(i2.involved_lifelines());
                    return (pruned_i2,aff);""", """                    // what is discarded is the left branch, and what is pruned in the right one
                    let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
                    let mut aff = i1.involved_lifelines();
                    aff.extend(aff2);
                    return (pruned_i2,aff);""")],
  "an action that overtakes an alternative the left branch of which has to be given up, on lifelines of the right branch only",
  "a lifeline that can no longer do nothing is not reported as affected",
  rust("""use crate::core::execution::semantics::execute::execute_interaction;
use crate::core::execution::semantics::frontier::global_frontier;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
fn em(l : usize, m : usize) -> Box<Interaction> {
    Box::new(Interaction::Emission(EmissionAction::new(l,m,CommunicationSynchronicity::Asynchronous,vec![])))
}
#[test]
fn demo() {
    let i = Interaction::Seq(Box::new(Interaction::Alt(em(0,0),em(1,1))),em(0,2));
    let f = global_frontier(&i,true).into_iter().find(|f| f.target_actions.iter().all(|a| a.ms_id == 2)).unwrap();
    let r = execute_interaction(&i,&f.position,&f.target_lf_ids,true);
    assert!(r.affected_lifelines.contains(&1));
}"""))
seed("c05_coreg_flush", "C05", [("src/core/transformation/transfofunc/flush.rs", """                    if cr1 == cr2 {
                        return vec![Interaction::CoReg( cr1.clone(), i11.clone()""", """                    // the outer co-region subsumes the inner one
                    if cr2.iter().all(|lf_id| cr1.contains(lf_id)) {
                        return vec![Interaction::CoReg( cr1.clone(), i11.clone()""")],
  "a co-region nested on the left of a co-region over more lifelines",
  "actions that were ordered on a lifeline of the outer co-region are no longer",
  rust("""use crate::core::transformation::transfofunc::flush::transfo_flush_right;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
fn em(l : usize, m : usize) -> Box<Interaction> {
    Box::new(Interaction::Emission(EmissionAction::new(l,m,CommunicationSynchronicity::Asynchronous,vec![])))
}
#[test]
fn demo() {
    let inner = Box::new(Interaction::CoReg(vec![0],em(1,0),em(1,1)));
    assert!(transfo_flush_right(&Interaction::CoReg(vec![0,1],inner.clone(),em(0,0))).is_empty());
    assert_eq!(transfo_flush_right(&Interaction::CoReg(vec![0],inner,em(0,0))).len(),1);
}"""))
seed("c06_sort_stable", "C06", [("src/core/transformation/transfofunc/invert.rs", """    let orig_par_frags = get_recursive_par_frags(interaction);
    let mut sorted_par_frags : Vec<&Interaction> = orig_par_frags.iter().map(|x| *x).sorted().collect();""", """    let orig_par_frags = get_recursive_par_frags(interaction);
    // the operands without loops come first
    let mut sorted_par_frags : Vec<&Interaction> = orig_par_frags.iter().map(|x| *x)
        .sorted_by(|x,y| x.total_loop_num().cmp(&y.total_loop_num()).then_with(|| if x.total_loop_num() == 0 {x.cmp(y)} else {std::cmp::Ordering::Equal})).collect();""")],
  "interleaved operands with as many loops as each other",
  "interactions that only differ by the order of interleaved loops have different canonical forms",
  rust("""use crate::core::general_context::GeneralContext;
use crate::process::canon_proc::manager::*;
use crate::core::transformation::transfofunc::invert::transfo_invert_par_sorted;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
fn lp(l : usize, m : usize) -> Box<Interaction> {
    Box::new(Interaction::Loop(LoopKind::SStrictSeq,Box::new(Interaction::Emission(EmissionAction::new(l,m,CommunicationSynchronicity::Asynchronous,vec![])))))
}
fn canon(i : Interaction) -> Interaction {
    transfo_invert_par_sorted(&i).pop().unwrap_or(i)
}
#[test]
fn demo() {
    assert_eq!(canon(Interaction::Par(lp(0,0),lp(1,1))),canon(Interaction::Par(lp(1,1),lp(0,0))));
}""".replace("use crate::core::general_context::GeneralContext;\nuse crate::process::canon_proc::manager::*;\n","")))
seed("c11_memo_budget", "C11", [("src/process/ana/node/node.rs", """            if self.flags.rem_loop_in_sim > memoized_node.flags.rem_loop_in_sim || self.flags.rem_act_in_sim > memoized_node.flags.rem_act_in_sim {
                return false;
            }""", """            if self.flags.rem_loop_in_sim > memoized_node.flags.rem_loop_in_sim {
                return false;
            }""")],
  "memoization, simulation with a budget of actions that is reset by executions, and two orders leading to the same point, the one with less budget left first",
  "an analysis with memoization fails where the one without it passes",
  sh("""OUT=$("$B" analyze m.hsf m.hif m.htf m.hcf 2>&1); echo "$OUT"
grep -q "verdict *: 'WeakPass" <<< "$OUT" || exit 1
OUT=$("$B" analyze m.hsf n.hif m.htf m.hcf 2>&1); echo "$OUT"
grep -q "verdict *: 'WeakPass" <<< "$OUT" """, m_hsf=HS3.replace("x}", "x;y}"), m_hif="strict(par(l1 -- x ->|, l2 -- a ->|), l1 -- y ->|, l1 -- b ->|)", n_hif="strict(par(l2 -- a ->|, l1 -- x ->|), l1 -- y ->|, l1 -- b ->|)",
  m_htf="{[l1] l1!b; [l2] l2!a; [l3]}", m_hcf="@analyze_option{analysis_kind=simulate[before=true,reset=true,loop none,act num=1];local_analysis=none;strategy=DFS;memoize=true}"))
seed("c13_memo_depth", "C13", [("src/process/explo/node.rs", """            if self.loop_depth >= memoized_node.loop_depth {
                // means that we might have already explored more from the memoized node
                return true;
            }""", """            return true;""")],
  "an exploration with memoization and a bound on loops that meets the same interaction again with fewer loop instantiations",
  "executions within the bound are not explored",
  sh("""OUT=$("$B" explore m.hsf m.hif m.hcf 2>&1); echo "$OUT"
grep -q "l2!b.l1!a" -r . --include=*.htf && exit 0
exit 1""", m_hsf=HS3, m_hif="alt(loopS(l1 -- a ->|), strict(l2 -- b ->|, loopS(l1 -- a ->|)))", m_hcf="@explore_option{loggers=[tracegen[generation=accepted,partition=trivial]];strategy=BFS;filters=[max_loop_depth=1];memoize=true}"))
seed("c14_synch_split", "C14", [("src/loggers/tracegen/printer.rs", """            if to_add.contains_key(&coloc_id) {
                to_add.get_mut(&coloc_id).unwrap().insert(new_action.clone());
            } else {
                to_add.insert( coloc_id, btreeset!{new_action.clone()} );
            }""", """            // each co-localization observes its own part of the action
            to_add.entry(coloc_id).and_modify(|x| { *x = btreeset!{new_action.clone()}; })
                .or_insert_with(|| btreeset!{new_action.clone()});""")],
  "a synchronous communication between lifelines of the same co-localization",
  "only one of the simultaneous actions is in the generated trace",
  sh("""OUT=$("$B" explore m.hsf m.hif m.hcf 2>&1); echo "$OUT"; cat $(find . -name '*.htf')
grep -q "{l1!a,l2?a}\\|{l2?a,l1!a}" -r . --include=*.htf""", m_hsf=HS3, m_hif="l1 -- <synch>a -> l2", m_hcf="@explore_option{loggers=[tracegen[generation=accepted,partition=trivial]];strategy=BFS}"))
seed("c15_loop_bound", "C15", [("src/core/language/syntax/metrics.rs", """            }, &Interaction::Seq(ref i1, ref i2) => {
                return i1.total_loop_num() + i2.total_loop_num();""", """            }, &Interaction::Seq(ref i1, ref i2) => {
                return i1.total_loop_num().max(i2.total_loop_num());""")],
  "an interaction with loops side by side whose states differ at each iteration",
  "traces with two iterations of each of several loops are not recognized",
  sh("""OUT=$("$B" nfa_analyze m.hsf m.hif m.htf 2>&1); echo "$OUT"
grep -q "re-enacted\\|Pass\\|Reenac\\|reenac" <<< "$OUT" """, m_hsf=HS3, m_hif="seq(loopW(seq(l1 -- a ->|,l2 -- a ->|)), loopW(seq(l1 -- b ->|,l2 -- b ->|)))", m_htf="{[#all] l1!a.l1!a.l1!b.l1!b}"))
seed("c18_sync_acts", "C18", [("src/io/input/hif/interaction.rs", """                            let mut sync_acts_as_vec : Vec<TraceAction> = sync_acts.into_iter().collect();
                            sync_acts_as_vec.sort();""", """                            let mut sync_acts_as_vec : Vec<TraceAction> = sync_acts.into_iter().collect();
                            sync_acts_as_vec.sort();
                            sync_acts_as_vec.dedup_by_key(|act| act.lf_id);""")],
  "a synchronized product on several actions of the same lifeline",
  "only the first action of each lifeline synchronizes",
  ana(HS3, "sync {l1!a,l1!b} (strict(l1 -- a ->|,l1 -- b ->|),strict(l1 -- a ->|,l1 -- b ->|))", "{[#all] l1!a.l1!b.l1!b}", "Fail", "@analyze_option{analysis_kind=accept}"))
seed("c18_coreg_dup", "C18", [("src/core/language/syntax/util/get_recursive_frag.rs", """            if cr == ref_cr {
                frags.extend( get_recursive_coreg_frags(ref_cr,i1));""", """            if cr.iter().all(|lf_id| ref_cr.contains(lf_id)) {
                frags.extend( get_recursive_coreg_frags(ref_cr,i1));""")],
  "a co-region in a co-region over more lifelines, in an interaction that the tool writes",
  "the written interaction has a single, larger, co-region",
  rust("""use crate::core::general_context::GeneralContext;
use crate::io::output::to_hfiles::interaction::to_hif::interaction_to_hif;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
fn em(l : usize, m : usize) -> Box<Interaction> {
    Box::new(Interaction::Emission(EmissionAction::new(l,m,CommunicationSynchronicity::Asynchronous,vec![])))
}
#[test]
fn demo() {
    let mut c = GeneralContext::new();
    for x in ["l1","l2"] { c.add_lf(x.to_string()); }
    for x in ["a","b"] { c.add_msg(x.to_string()); }
    let i = Interaction::CoReg(vec![0,1],em(0,0),Box::new(Interaction::CoReg(vec![0],em(1,0),em(1,1))));
    let f = std::env::temp_dir().join(format!("zz_demo_{}.hif",std::process::id()));
    interaction_to_hif(&f,&c,&i);
    let t = std::fs::read_to_string(&f).unwrap();
    std::fs::remove_file(&f).unwrap();
    assert_eq!(t.matches("coreg").count(),2);
}"""))
seed("c19_any", "C19", [("src/io/input/htf/multi_trace.rs", """            let mut remaining_lfs : BTreeSet<usize> = gen_ctx.get_all_lfs_ids();
            remaining_lfs = &remaining_lfs - unavailable_lifelines;""", """            let mut remaining_lfs : BTreeSet<usize> = gen_ctx.get_all_lfs_ids();
            if let Some(last) = co_localizations.last() {
                remaining_lfs = &remaining_lfs - last;
            }""")],
  "a multi-trace in which [#all] comes after two components or more",
  "lifelines of the first component are also in the component of the remaining ones",
  sh("""OUT=$("$B" slice m.hsf m.htf -k prefix 2>&1); echo "$OUT"; cat $(find . -name 's1.htf')
grep -q "\\[l3\\]" $(find . -name 's1.htf')""", m_hsf=HS3, m_htf="{[l1] l1!a; [l2] l2!b; [#all] l3!c}"))
