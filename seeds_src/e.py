HS5 = "@message{a;b}\n@lifeline{l1;l2;l3;l4;l5}\n@gate{g}"
seed("c07_memo_wide", "C07", [("src/process/ana/node/node.rs", "            for idx in 0..self.flags.canals.len() {", "            for idx in 0..self.flags.canals.len().min(3) {")],
  "an analysis with memoization of a multi-trace of four components or more, in which the fourth one goes through a loop",
  "two states of the analysis which differ only on the fourth component are taken for the same one, so that behaviours of the model fail",
  ana(HS5, "loopS(l4 -- a ->|)", "{[l1]; [l2]; [l3]; [l4] l4!a.l4!a.l4!a; [l5]}", "Pass", "@analyze_option{analysis_kind=accept;local_analysis=none;memoize=true}"))
seed("c32_hide_all", "C32", [("src/ui/commands/cli_glosem.rs", ".iter().any(|a : &TraceAction| a.lf_id == lf_id)", ".iter().all(|a : &TraceAction| a.lf_id == lf_id)")],
  "a synchronous message between two lifelines",
  "the automata in which a lifeline is hidden still show the synchronous messages it takes part in",
  sh("""OUT=$("$B" glosem m.hsf m.hif 2>&1); echo "$OUT"; cat m_hid_0_closed_nfa.dot; ls
[ -f m_hid_0_closed_nfa.dot ] && ! grep -q "l1!a" m_hid_0_closed_nfa.dot && grep -q "l2" m_hid_0_closed_nfa.dot """, m_hsf=HS3, m_hif="strict(l1 -- <synch>a -> l2,l2 -- b ->|)"))
seed("c01_recipients4", "C01", [("src/core/execution/semantics/frontier.rs", "            for (rcp_idx,rcp_lf_id) in rc_act.recipients.iter().enumerate() {", "            for (rcp_idx,rcp_lf_id) in rc_act.recipients.iter().enumerate().take(3) {")],
  "a broadcast to four lifelines, of which the fourth one receives it before all the others",
  "such executions are no longer found",
  ana(HS5, "l5 -- a -> (l1,l2,l3,l4)", "{[#all] l5!a.l4?a.l1?a.l2?a.l3?a}", "Pass"))
seed("c01_coreg_wide", "C01", [("src/core/execution/semantics/execute.rs", "            for lf_id_in_coreg in cr {", "            for lf_id_in_coreg in cr.iter().take(2) {")],
  "a co-region of three lifelines, an action of the third one in its second operand occurring before those of the first",
  "executing it prunes the first operand as if the third lifeline were not in the co-region",
  ana(HS5, "coreg(l1,l2,l3)(loopS(l3 -- a ->|),l3 -- b ->|)", "{[#all] l3!b.l3!a}", "Pass"))
seed("c33_no_truncate", "C33", [("src/io/output/to_hfiles/trace/to_htf.rs", "    let mut file = File::create(file_path).unwrap();", "    let mut file = std::fs::OpenOptions::new().write(true).create(true).open(file_path).unwrap();")],
  "a second run that writes shorter multi-traces in the files of an earlier one",
  "the end of the former multi-trace stays in the file, which cannot be read any more",
  sh("""cat > m2.htf <<'X'
{[l1] l1!b}
X
"$B" mutate_remove_actions m.hsf m.htf -p mu -n x -m 0 2>&1
"$B" mutate_remove_actions m.hsf m2.htf -p mu -n x -m 0 2>&1
"$B" mutate_remove_actions m.hsf m2.htf -p fresh -n x -m 0 2>&1
cat mu/x.htf; cmp mu/x.htf fresh/x.htf""", m_hsf=HS3, m_htf="{[l1] l1!a.l1!a.l1!a; [l2] l2!a.l2!a}"))
seed("c33_dotted_name", "C33", [("src/io/output/draw_interactions/as_sd/interface.rs", "    image.save(output_path.as_path());", "    image.save(output_path.with_extension(\"\").with_extension(\"png\").as_path());")],
  "an interaction file with a dot in its name",
  "its drawing is written under another name, and overwrites the drawing that has this name",
  sh("""cp m.hif m.v2.hif; "$B" draw m.hsf m.v2.hif 2>&1; ls
[ -f m.v2_repr.png ]""", m_hsf=HS3, m_hif="l1 -- a -> l2"))
