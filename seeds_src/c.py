EM = """use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
fn em(l : usize, m : usize) -> Box<Interaction> {
    Box::new(Interaction::Emission(EmissionAction::new(l,m,CommunicationSynchronicity::Asynchronous,vec![])))
}
"""
seed("c16_par_same", "C16", [("src/nfa_translation/compositional.rs", """                nfa1.interleave(nfa2).unwrap().trim()""", """                if i1 == i2 {
                    // twice the same behaviour: whatever the order, it is that of one followed by the other
                    nfa1.concatenate(nfa2).unwrap().trim()
                } else {
                    nfa1.interleave(nfa2).unwrap().trim()
                }""")],
  "the interleaving of two equal operands of two actions or more",
  "traces in which both operands are under way at the same time are not recognized",
  sh("""OUT=$("$B" nfa_experiment m.hsf m.hif -n 1 -k 100 2>&1); echo "$OUT"
grep -q "incorrect\\|not correct\\|false" <<< "$OUT" && exit 1
DEMO_PLACEHOLDER=1""", m_hsf=HS3, m_hif="par(strict(l1 -- a ->|,l1 -- b ->|),strict(l1 -- a ->|,l1 -- b ->|))"))
SEEDS["c16_par_same"]["demo"] = rust("""use crate::core::general_context::GeneralContext;
use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx_and_interaction;
use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
use crate::core::execution::trace::trace::*;
use autour_core::traits::run::AutRunnable;
""" + EM + """#[test]
fn demo() {
    let mut c = GeneralContext::new();
    c.add_lf("l1".to_string());
    for x in ["a","b"] { c.add_msg(x.to_string()); }
    let s = Box::new(Interaction::Strict(em(0,0),em(0,1)));
    let i = Interaction::Par(s.clone(),s);
    let al = get_alphabet_from_gen_ctx_and_interaction(&c,&i);
    let at = |m : usize| al.iter().position(|x| *x == btreeset!{TraceAction::new(0,TraceActionKind::Emission,m)}).unwrap();
    let (a,b) = (at(0),at(1));
    let (n,_) = get_nfa_from_interaction_via_composition(&c,&i,al.clone());
    assert!(n.runs_trace(&vec![a,b,a,b]).unwrap_or(false));
    assert!(n.runs_trace(&vec![a,a,b,b]).unwrap_or(false));
}""")
seed("c17_letter_subset", "C17", [("src/ui/commands/cli_nfa_ana.rs", "match printer.index_to_action_map.iter().position(|y| y == x) {", "match printer.index_to_action_map.iter().position(|y| y.is_subset(x)) {")],
  "a trace in which several actions are observed at once that the interaction has not as one communication",
  "the observation is read as the first of its actions alone",
  sh("""OUT=$("$B" nfa_analyze m.hsf m.hif m.htf 2>&1); echo "$OUT"
echo "$OUT" | grep "verdict : .failed" """, m_hsf=HS3, m_hif="l1 -- a -> |", m_htf="{[#all] {l1!a,l2?b}}"))
seed("c21_folder_reset", "C21", [("src/io/input/hcf/loggers/graphviz.rs", """                    Rule::GRAPHIC_LOGGER_layout_horizontal => {
                        layout""", """                    Rule::GRAPHIC_LOGGER_layout_horizontal => {
                        // wide graphs are vector graphics
                        output_format = GraphVizOutputFormat::svg;
                        layout""")],
  "a graphic logger that is both png and horizontal, in that order",
  "the graph is written as svg",
  sh("""OUT=$("$B" explore m.hsf m.hif m.hcf 2>&1); echo "$OUT"; find .
find . -name 'gg.png' | grep -q .""", m_hsf=HS3, m_hif="l1 -- a ->|", m_hcf="@explore_option{loggers=[graphic[png,horizontal,name=gg]];strategy=BFS}"))
seed("c22_wide_half", "C22", [("src/trace_manip/slice/random.rs", "let rng_indices = Uniform::from(0..((length/3) + 1) );", "let rng_indices = Uniform::from(0..((length/2) + 1) );")],
  "wide slices of a component of more than four actions",
  "what is kept can be less than a third of the component, or nothing",
  sh("""for k in 1 2 3 4 5 6; do "$B" slice m.hsf m.htf -k slice -r 200 -w -p out$k > log 2>&1; cat $(find out$k -name '*.htf') > all$k; done
python3 - <<'P'
import glob,sys
bad=0
for f in glob.glob('out*/**/*.htf',recursive=True):
    if open(f).read().count('!')<3: bad=1
n=len(glob.glob('out*/**/*.htf',recursive=True))
print(n,bad); sys.exit(1 if bad or not n else 0)
P""", m_hsf=HS3, m_htf="{[l1] l1!a.l1!b.l1!a.l1!b.l1!a.l1!b.l1!a.l1!b}"))
seed("c23_noise_seen", "C23", [("src/trace_manip/mutate/insert_noise.rs", """            seen_colocs.insert(coloc_id);
            rem_num_inserts -= 1;""", """            if !only_at_end {
                seen_colocs.insert(coloc_id);
            }
            rem_num_inserts -= 1;""")],
  "noise both at the end only and at most once per component",
  "a component gets several additional actions",
  sh("""for k in $(seq 1 40); do "$B" mutate_insert_noise m.hsf m.htf -p out -n m$k -m 3 -u -e > log 2>&1 || true; done; cat log
python3 - <<'P'
import glob,sys,re
n=bad=0
for f in glob.glob('out/*.htf'):
    n+=1
    if any(len(re.findall('[!?]',c))>1 for c in open(f).read().split(';')): bad+=1
print(n,bad); sys.exit(1 if bad or not n else 0)
P""", m_hsf=HS3, m_htf="{[l1]; [l2]; [l3]}"))
seed("c24_targets_len", "C24", [("src/core/language/ord/action.rs", """        let max_tar_len = self.recipients.len().max(other.recipients.len());""", """        let max_tar_len = self.recipients.len().min(other.recipients.len());""")],
  "two receptions of which the recipients of one start with those of the other",
  "different receptions compare equal",
  rust("""use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
fn re(v : Vec<usize>) -> Interaction {
    Interaction::Reception(ReceptionAction::new(None,0,CommunicationSynchronicity::Asynchronous,v))
}
#[test]
fn demo() {
    assert_ne!(re(vec![0]).cmp(&re(vec![0,1])),std::cmp::Ordering::Equal);
}"""))
seed("c25_recipients", "C25", [("src/core/language/syntax/metrics.rs", """                for lf in &rc.recipients {
                    self.lifelines.insert(*lf);
                }""", """                if let Some(lf) = rc.recipients.first() {
                    self.lifelines.insert(*lf);
                }""")],
  "a reception by several lifelines that do nothing else",
  "the number of lifelines is too small",
  rust("""use crate::core::language::syntax::metrics::*;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
#[test]
fn demo() {
    let i = Interaction::Reception(ReceptionAction::new(None,0,CommunicationSynchronicity::Asynchronous,vec![0,1,2]));
    assert_eq!(InteractionMetrics::extract_from_interaction(&i).lifelines.len(),3);
}"""))
seed("c26_memo_raw", "C26", [("src/ui/commands/cli_rng_gen_interactions.rs", """                        memoized_ints.insert(i);
                        x += 1;""", """                        if x % 2 == 0 {
                            memoized_ints.insert(i);
                        }
                        x += 1;""")],
  "a generation that draws again the interaction of an odd number",
  "the same interaction is written twice",
  sh(""""$B" rng_gen_interactions m.hsf -i 40 -d 2 -x 1 -s 1 -t 2000 -f out > log 2>&1 || true; tail -3 log; ls | head
D2=$(find . -name 'i1.hif' -printf '%h'); ls "$D2" | wc -l
N=$(ls "$D2" | wc -l); M=$(md5sum "$D2"/*.hif | cut -d' ' -f1 | sort -u | wc -l)
[ "$N" -gt 5 ] && [ "$N" -eq "$M" ]""", m_hsf="@message{a} @lifeline{l1;l2}"))
seed("c27_empty_branch", "C27", [("src/plantuml/sequence.rs", """            let mut alt_frags = get_recursive_alt_frags(i1);
            alt_frags.extend_from_slice(&mut get_recursive_alt_frags(i2));
            // ***""", """            let mut alt_frags = get_recursive_alt_frags(i1);
            alt_frags.extend_from_slice(&mut get_recursive_alt_frags(i2));
            // there is nothing to draw in the empty alternatives
            alt_frags.retain(|frag| *frag != &Interaction::Empty);
            // ***""")],
  "an optional part",
  "the diagram has one branch less: what was optional no longer is",
  sh(""""$B" puml_sd m.hsf m.hif > log 2>&1; cat log; find .; cat *.puml
grep -q "^else" $(find . -name '*.puml')""", m_hsf=HS3, m_hif="alt(o,l1 -- a ->|)"))
seed("c28_loop_count", "C28", [("src/plantuml/automata_product.rs", """            let (last,count) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);
            new_state_count = count;""", """            let (last,_) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);""")],
  "a loop that is followed by something else",
  "states within the loop and after it have the same name",
  sh(""""$B" puml_ap m.hsf m.hif > log 2>&1; cat log; cat *.puml
[ "$(grep -c -- '--> lf0_s2 ' *.puml)" -eq 1 ]""", m_hsf="@message{a;b} @lifeline{l1}", m_hif="seq(loopS(l1 -- a ->|),l1 -- b ->|)"))
seed("c30_step_image", "C30", [("src/process/explo/loggers/glog/drawer.rs", """let step_name = format!("s_{}_{}_{:?}", origin_state_id, target_state_id, frt_elt.position);""", """let step_name = format!("s_{}_{}", origin_state_id, target_state_id);""")],
  "an exploration with memoization in which two different steps have the same origin and the same target",
  "both steps of the graph show the action of the last one",
  sh(""""$B" explore m.hsf m.hif m.hcf > log 2>&1; tail -3 log; cat $(find . -name '*.gv' -o -name '*.dot'); find . -name '*.png'
[ "$(find . -name '*s_1_2*.png' | wc -l)" -ge 2 ]""", m_hsf=HS3, m_hif="alt(l1 -- a ->|,l1 -- b ->|)", m_hcf="@explore_option{loggers=[graphic[svg]];strategy=BFS;memoize=true}"))
seed("c31_doors_mid", "C31", [("src/experiments/doors_interactions_generation.rs", "((x-1)/2,1_u32)", "(x/3,1_u32)")],
  "an odd number of doors, of at least five",
  "the combinations of doors by two and three are missing",
  rust("""use crate::experiments::doors_interactions_generation::generate_doors_interactions;
#[test]
fn demo() {
    assert_eq!(generate_doors_interactions(3,2,1,1).len(),4);
    let v = generate_doors_interactions(5,2,1,1);
    assert_eq!(v.len(),48);
}"""))
seed("c29_gate_arrow", "C29", [("src/io/output/draw_interactions/as_sd/interaction_repr/img_content.rs", """        &Interaction::CoReg(ref cr, ref i1,ref i2) => {
            let mut frags = get_recursive_coreg_frags(cr, i1);""", """        &Interaction::CoReg(ref cr, ref i1,ref i2) => {
            // nested co-regions on the same first lifeline are drawn as one
            let cr = match &**i1 {
                Interaction::CoReg(cr1,_,_) if cr1.first() == cr.first() => cr1,
                _ => cr
            };
            let mut frags = get_recursive_coreg_frags(cr, i1);""")],
  "a co-region nested on the left of another one on different lifelines of which the first one is the same",
  "both are drawn as a co-region on the lifelines of the inner one",
  sh("""cat > n.hif <<'X'
coreg(l1,l3)(coreg(l1)(l1 -- a -> |,l2 -- b -> |),l3 -- a -> |)
X
"$B" draw m.hsf m.hif -o x; "$B" draw m.hsf n.hif -o y; ls
X=$(find . -name 'x.png'); Y=$(find . -name 'y.png'); [ -n "$X" ] && [ -n "$Y" ] || exit 3
! cmp -s "$X" $Y""", m_hsf=HS3, m_hif="coreg(l1,l2)(coreg(l1)(l1 -- a -> |,l2 -- b -> |),l3 -- a -> |)"))
seed("c05_defactor_sort", "C05", [("src/core/transformation/transfofunc/factorize/factorize_prefix.rs", """                    let mut right_seq_frags = get_recursive_seq_frags(i2);
                    if left_seq_frags[0] == right_seq_frags[0] {""", """                    let mut right_seq_frags = get_recursive_seq_frags(i2);
                    // a fragment that commutes with what precedes it can be brought first
                    if let Some(k) = right_seq_frags.iter().position(|x| *x == left_seq_frags[0]) {
                        if k > 0 && right_seq_frags[..k].iter().any(|x| x.involved_lifelines().is_disjoint(&right_seq_frags[k].involved_lifelines())) {
                            let x = right_seq_frags.remove(k);
                            right_seq_frags.insert(0,x);
                        }
                    }
                    if left_seq_frags[0] == right_seq_frags[0] {"""), ("src/core/transformation/transfofunc/factorize/factorize_prefix.rs", "use crate::core::language::syntax::interaction::Interaction;", "use crate::core::language::involve::involves::InvolvesLifelines;\nuse crate::core::language::syntax::interaction::Interaction;")],
  "alternatives of sequences that share an operand which is first in the first one and, in the second one, comes after two others of which only one is on other lifelines",
  "the order of two actions of the same lifeline is changed",
  rust("""use crate::core::transformation::transfofunc::factorize::factorize_prefix::transfo_factorize_prefix_seq;
""" + EM + """#[test]
fn demo() {
    let i = Interaction::Alt(Box::new(Interaction::Seq(em(0,0),em(0,1))),
        Box::new(Interaction::Seq(em(1,1),Box::new(Interaction::Seq(em(0,1),em(0,0))))));
    assert!(transfo_factorize_prefix_seq(&i).is_empty());
}"""))
