seed("c10_exec_mix", "C10", [("src/process/ana/node/flags.rs", "                if consu_set.len() > 0 { // an execution step", "                if consu_set.len() > 0 && sim_map.is_empty() { // an execution step")],
  "a synchronous step that is matched on a component and simulated on another one, under a limit on loops",
  "such a step is taken from the simulation limits, so that multi-traces within them are rejected",
  ana(HS3, "loopS(l2 -- <synch>a -> l1)", "{[l1] ; [l2] l2!a.l2!a; [l3]}", "WeakPass", "@analyze_option{analysis_kind=simulate[before=false,loop maxnum,act none];local_analysis=none}"))
seed("c20_any_overlap", "C20", [("src/io/input/htf/multi_trace.rs", """                Ok( trace ) => {
                    unavailable_lifelines.extend(lifelines.clone());
                    co_localizations.push(lifelines);
                    multi_trace.push(trace);
                }
            }
        },
        Rule::CANAL_LIFELINES_all => {""", """                Ok( trace ) => {
                    *unavailable_lifelines = lifelines.clone();
                    co_localizations.push(lifelines);
                    multi_trace.push(trace);
                }
            }
        },
        Rule::CANAL_LIFELINES_all => {""")],
  "a component [#any] between two components that share a lifeline",
  "overlapping co-localizations are accepted",
  sh("""OUT=$("$B" analyze m.hsf m.hif m.htf 2>&1); echo "$OUT"
! grep -q "verdict *:" <<< "$OUT" """, m_hsf=HS3, m_hif="loopS(alt(l1 -- a ->|,l2 -- b ->|))", m_htf="{[l1] l1!a; [#any] l2!b; [l1] l1!a}"))
seed("c22_windows", "C22", [("src/util/slicer.rs", """        (min..max).map( |start| {
            (start,start+size)
        }).filter( |(a,b)| b <= &max)""", """        (min..max).map( |start| {
            (start,start+size)
        }).filter( |(a,b)| b <= &max && (size < 8 || (b - a) % 2 == 0 || *b == max))""")],
  "a component of more than nine actions",
  "some slices of nine actions or more are not generated",
  sh("""OUT=$("$B" slice m.hsf m.htf -k slice -p sl 2>&1); echo "$OUT"; N=$(ls sl | wc -l); echo $N
[ "$N" = 67 ]""", m_hsf="@message{a;b}\n@lifeline{l1}", m_htf="{[l1] l1!a.l1!b.l1!a.l1!a.l1!b.l1!b.l1!a.l1!b.l1!a.l1!b.l1!b}"))
seed("c23_noise_lifelines", "C23", [("src/trace_manip/mutate/insert_noise.rs", "        let rng_lf_id_idx = Uniform::from(0..coloc_lfs_as_vec.len() );", "        let rng_lf_id_idx = Uniform::from(0..coloc_lfs_as_vec.len().min(2) );")],
  "a co-localization of three lifelines or more",
  "noise never occurs on the third lifeline of a co-localization",
  sh("""OUT=$("$B" mutate_insert_noise m.hsf m.htf -p mu -n x -m 200 2>&1); echo "$OUT"; cat mu/x.htf
grep -q "l3[!?]" mu/x.htf""", m_hsf=HS3, m_htf="{[l1,l2,l3] l1!a}"))
seed("c05_sort_gate", "C05", [("src/core/transformation/transfofunc/action.rs", "ReceptionAction::new(rc_act.origin_gt_id.clone(),rc_act.ms_id,rc_act.synchronicity.clone(),new_targets)", "ReceptionAction::new(None,rc_act.ms_id,rc_act.synchronicity.clone(),new_targets)")],
  "a message from a gate to several lifelines that are not in order",
  "sorting the recipients forgets the gate of the message",
  rust("""use crate::core::transformation::transfofunc::action::transfo_sort_action_content;
use crate::core::language::syntax::interaction::*;
use crate::core::language::syntax::action::*;
#[test]
fn demo() {
    let i = Interaction::Reception(ReceptionAction::new(Some(0),0,CommunicationSynchronicity::Asynchronous,vec![1,0]));
    match transfo_sort_action_content(&i).pop().unwrap() {
        Interaction::Reception(x) => { assert_eq!(x.recipients,vec![0,1]); assert_eq!(x.origin_gt_id,Some(0)); },
        _ => panic!()
    }
}"""))
