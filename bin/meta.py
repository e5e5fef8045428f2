#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))

UNIT = "The ten unit tests sample a few fixed inputs of the random generators and slicers; none of them "

prop("C01", "Execution steps generate exactly the traces of an interaction",
 "The traces obtained by repeatedly executing an immediately executable (multi-)action of an interaction, and stopping where the interaction can express the empty behaviour, are exactly the traces given by its denotation (empty, action, strict, weak sequence, co-region, alternative, interleaving, the four loops, synchronized product). No executable action is missing, none is spurious, and each execution leads to an interaction denoting exactly the continuations.",
 ["programs", "histories"], "every interaction term and every finite execution history of it",
 UNIT + "executes an interaction. The claim quantifies over all terms and all executions of them.",
 ["src/core/execution/semantics", "src/core/language"],
 [("frontier: which actions are immediately executable, at which position", "src/core/execution/semantics/frontier.rs"),
  ("execution rules per operator, pruning of what is overtaken", "src/core/execution/semantics/execute.rs"),
  ("expression of the empty behaviour", "src/core/language/syntax/interaction.rs")],
 "property-based testing: random terms, bounded trace sets by stepping vs an independent denotational model, shrinking",
 "Exact comparison of trace sets up to a length bound on random terms of up to 15 nodes; nothing beyond the bound.",
 ["sets of traces by iterated execution"])
prop("C02", "Avoidance and pruning of lifelines keep exactly the behaviours without them",
 "An interaction is said to avoid a set of lifelines exactly when it has a behaviour in which none of them acts, and pruning it with respect to them yields an interaction whose behaviours are exactly those.",
 ["programs", "inputs"], "every interaction that can avoid the lifelines, every set of lifelines",
 UNIT + "prunes an interaction; the claim is about all terms and sets of lifelines.",
 ["src/core/language/avoid", "src/core/execution/semantics"],
 [("avoidance", "src/core/language/avoid/implem.rs"), ("pruning", "src/core/language/prune/interaction.rs")],
 "property-based testing against a denotational model",
 "Bounded trace length; random terms.", ["language of the pruned interaction"])
prop("C03", "Eliminating lifelines projects the behaviours of an interaction",
 "Removing a set of lifelines from an interaction gives an interaction over the remaining lifelines whose local behaviours are exactly the projections, on these lifelines, of the behaviours of the original one. No action of a removed lifeline remains.",
 ["programs", "inputs"], "every interaction and set of lifelines to remove",
 UNIT + "eliminates a lifeline.",
 ["src/core/language/eliminate_lf"],
 [("elimination", "src/core/language/eliminate_lf/interaction.rs")],
 "property-based testing against projections of a denotational model",
 "Bounded trace length; equality on multi-traces without co-regions and multi-actions, inclusion with them.", ["language of the reduced interaction"])
prop("C04", "Execution reports every lifeline whose local behaviour it may change",
 "When an action is executed, the lifelines that are not reported as affected have, after the step, exactly the local behaviours they had before it. Asking for this information does not change the result of the execution.",
 ["programs", "histories"], "every interaction, execution history, and lifeline",
 UNIT + "looks at affected lifelines, and a missed lifeline only matters for the analyses that skip local checks because of it.",
 ["src/core/execution/semantics"],
 [("pruning with report of affected lifelines", "src/core/language/prune/interaction.rs"), ("execution result", "src/core/execution/semantics/execute.rs")],
 "property-based testing: metamorphic comparison of local languages before and after a step",
 "Random terms, up to 3 steps, local traces up to length 5.", ["local languages before and after each step"])
prop("C05", "Every term rewriting preserves the behaviours of an interaction",
 "Each of the rewritings offered for transforming interactions (simplifications, flushes, sorting, factorization, defactorization, deduplication, loop and action unfoldings, conversions to weak sequence), applied anywhere it applies, yields an interaction with exactly the same traces and the same exchanges with gates. A rewriting is offered wherever its pattern occurs, and its result is the one the pattern defines.",
 ["programs"], "every interaction, rewriting and place where it applies",
 UNIT + "applies a rewriting.",
 ["src/core/transformation"],
 [("the rewritings", "src/core/transformation/transfofunc"), ("application anywhere in a term", "src/core/transformation/get_transfos/get_all_transfos.rs")],
 "property-based testing: language equality of each application against a denotational model",
 "Bounded trace length, random terms shaped so that rewritings apply.", ["language of the rewritten interaction"])
prop("C06", "Canonization preserves behaviours and gives irreducible, unique forms",
 "The canonical form computed for an interaction, by any of the canonization processes, has exactly the same traces as it and the same exchanges with gates, and no rewriting of the process' phases applies to it any more (no empty operand, no repeated alternative, operands flattened and sorted). Interactions that only differ by the arrangement or repetition of alternatives and by the arrangement of interleaved operands get the same canonical form.",
 ["programs", "configurations"], "every interaction and canonization process",
 UNIT + "canonizes an interaction.",
 ["src/process/canon", "src/core/transformation", "src/nfa_translation/canonize.rs"],
 [("the phases", "src/process/canon"), ("one-shot canonization", "src/nfa_translation/canonize.rs")],
 "property-based testing: language equality, normal form and confluence checks",
 "Bounded trace length, terms up to 15 nodes.", ["canonical form"])
prop("C07", "Accept analysis passes exactly on the multi-traces of the model",
 "The verdict of an accepting analysis is Pass when the multi-trace is the multi-trace of a complete behaviour of the interaction, under the given co-localizations, and Fail otherwise.",
 ["programs", "inputs", "configurations"], "every interaction, co-localization, multi-trace, and search options",
 UNIT + "runs an analysis; membership has to be decided for all models and observations.",
 ["src/process/ana"],
 [("matching of observed multi-actions with executable ones", "src/process/ana/handling/matches.rs"), ("verdicts", "src/process/ana/handling/handler.rs"), ("memoization of analysis nodes", "src/process/ana/node/node.rs")],
 "property-based testing: verdict vs membership in a denotational model",
 "Observations up to 9 actions, models up to 12 nodes, exact oracle.", ["verdict"])
prop("C08", "Prefix analysis: Pass, WeakPass and Fail mean what they say",
 "The verdict of a prefix analysis is Pass when the multi-trace is one of the interaction's, WeakPass when it is that of a proper prefix of one of its executions, and is neither Pass nor WeakPass otherwise. It is never Fail when some continuation of the observation on its components could still be a multi-trace of the interaction.",
 ["programs", "inputs", "configurations"], "every interaction, co-localization, multi-trace, and search options (with or without local analyses)",
 UNIT + "runs an analysis.",
 ["src/process/ana"],
 [("matching", "src/process/ana/handling/matches.rs"), ("verdicts", "src/process/ana/handling/handler.rs"), ("local analyses", "src/process/ana/handling/local_analysis.rs")],
 "property-based testing: verdict vs exact prefixes computed from a denotational model",
 "Observations up to 8 actions; prefixes exact, Fail checked against all traces up to a bound.", ["verdict"])
prop("C09", "Lifeline-removal analysis recognizes multi-prefixes",
 "The analysis with removal of no longer observed lifelines never fails on a multi-trace whose components are prefixes of the components of one behaviour of the interaction (it passes if its co-localizations are single lifelines, and is inconclusive once it removes co-localized ones); Pass is given only to complete multi-traces. On interactions without interleaving operators and synchronous actions over single-lifeline components, it fails on everything else.",
 ["programs", "inputs", "configurations"], "every interaction, co-localization, multi-trace, and search options",
 UNIT + "runs an analysis.",
 ["src/process/ana", "src/core/language/eliminate_lf"],
 [("hiding steps", "src/process/ana/handling/handler.rs"), ("elimination", "src/core/language/eliminate_lf/interaction.rs")],
 "property-based testing: verdict vs component-wise prefixes from a denotational model",
 "Observations up to 8 actions; rejection only checked where the approach is exact.", ["verdict"])
prop("C10", "Simulation analysis recognizes multi-prefixes and multi-slices",
 "With simulation after the end of the components, the analysis passes exactly on the multi-traces whose components are prefixes of those of one behaviour; with simulation before their start too, exactly on those whose components are contiguous parts of them; Pass rather than WeakPass is given exactly to the complete ones. Limits on simulated actions and on the loops that they instantiate only lose WeakPass verdicts: exactly those for which no explanation stays within the limits (which an executed action renews if so configured).",
 ["programs", "inputs", "configurations"], "every interaction, co-localization, multi-trace, simulation configuration and search options",
 UNIT + "runs an analysis.",
 ["src/process/ana"],
 [("simulation steps", "src/process/ana/handling/matches.rs"), ("budgets", "src/process/ana/node/flags.rs"), ("configuration", "src/process/ana/param/anakind.rs")],
 "property-based testing: verdict vs component-wise prefixes and factors from a denotational model; with limits, vs an independent search of the explanations within them",
 "Without limits, exact on loop-free models; with limits, compared with an own search on models with and without loops.", ["verdict"])
prop("C11", "Analysis verdicts do not depend on how the search is done",
 "Search strategy, priorities, randomization, memoization, and local analyses (of any look-ahead, policy and period) change the cost of an analysis but not its verdict, except that local analyses may prove a failure where the verdict would be inconclusive and that a goal may stop the search early; partial order reduction does not either on asynchronous models built from weak sequence, alternatives, interleavings and weak loops. A local analysis reports a failure exactly when the local trace cannot be executed, as far as its look-ahead reaches.",
 ["programs", "inputs", "configurations", "schedules"], "every interaction, observation and pair of option sets",
 UNIT + "runs an analysis, let alone twice with different options.",
 ["src/process/ana"],
 [("memoization", "src/process/ana/node/node.rs"), ("local analyses", "src/process/ana/handling/local_analysis.rs"), ("partial order reduction", "src/process/ana/handling/matches.rs"), ("priorities", "src/process/ana/priorities.rs")],
 "property-based testing: differential between option sets (with and without memoization, under simulation limits and where executions meet); look-ahead against a denotational model",
 "Random models up to 24 nodes; analyses larger than 2500 nodes (500 in simulation) are discarded.", ["verdict", "node count"])
prop("C12", "Bounded analyses are sound: they only become inconclusive",
 "With filters on loop instantiations, depth or number of nodes, an analysis gives the verdict it would give without them or a weaker one: it passes only if the unbounded one does, and fails only if the unbounded one does not pass. It does not explore more nodes than its bound.",
 ["programs", "inputs", "configurations"], "every interaction, observation, options and filters",
 UNIT + "runs an analysis.",
 ["src/process/ana/filter", "src/process/ana/verdict"],
 [("filters", "src/process/ana/filter/filter.rs"), ("verdict when nodes were filtered", "src/process/ana/verdict/global.rs")],
 "property-based testing: differential between bounded and unbounded analyses; own search within a bound on loops",
 "Bounds on loops exact for accept and prefix; other bounds related to the unbounded verdict, all kinds of analyses.", ["verdict", "node count"])
prop("C24", "Interactions are totally ordered, consistently with equality",
 "The comparison of interactions is a total order: any two are comparable, two compare equal exactly when they are equal, and it is antisymmetric and transitive. Comparing with '<' (as sorting does) agrees with it.",
 ["inputs"], "every triple of interactions",
 UNIT + "compares interactions; canonical forms rely on the order for all terms.",
 ["src/core/language/ord"],
 [("order", "src/core/language/ord/interaction.rs")],
 "property-based testing of order laws",
 "Random triples of small terms.", ["comparison result"])

exec(open(os.path.join(ROOT, "bin", "meta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "bin", "meta_more.py")) else None
P.sort(key=lambda p: p["id"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        for x in p["files"] + [w for _, w in p["mech"]]:
            assert os.path.exists(os.path.join("/repo", x.split(":")[0])), (p["id"], x)
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
na = {x["property"] for x in NA}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash bin/check.sh build",
      "checks": [{"property": p["id"], "quick_cmd": f"bash bin/check.sh {p['id']} quick", "thorough_cmd": f"bash bin/check.sh {p['id']} thorough",
                  "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if p["id"] not in na],
      "not_applicable": NA}, f, indent=1)
    f.write("\n")
