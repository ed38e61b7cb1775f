prop("C18", "GRF formulas keep their meaning under evaluation, negation and promotion",
 "For every polynomial atom and every assignment of rational values, GRF's evaluation of the atom is its truth value, or None exactly when a variable of the atom has no value, and a negated atom has the opposite truth value. For every sequence of hypotheses promoted to a goal, with or without Groebner simplification, the goal is true at a point that assigns all variables exactly when the main goal holds there or some promoted hypothesis fails there, and at a point that assigns only some variables it is called true only if it is true at every completion.",
 ["inputs", "histories"], "every atom, every full or partial point, every sequence of promotions of equations and inequalities",
 "GRF has no runnable tests; an equation lost in simplification needs a particular order of promotions and a particular point.",
 ["GRF/grf.sage"], [("evaluation and negation of atoms", "GRF/grf.sage RCF_Atom.eval_on_dict, negate, quotient_ring_inject"), ("goals and promotion of hypotheses", "GRF/grf.sage RCF_Goal.eval_on_dict, add_goal_hyp")],
 state=[("goal", "promoted hypotheses and the Groebner basis of their equations", "GRF/grf.sage RCF_Goal")], observe=["eval_on_dict return values"])

prop("C19", "GRF's sample points reach every open cell of its polynomials",
 "For every finite set of polynomials over the rationals, the sample points GRF computes realise every combination of strict signs of these polynomials that some open set of real points has. In one variable there is a point in every interval between neighbouring roots and every rational root is itself a sample point. When a goal is given, combinations may be left out only where the goal is true. The result holds whichever points the random choices pick inside the intervals.",
 ["inputs", "schedules"], "every set of polynomials, every outcome of the random choices and every width of the isolating intervals",
 "GRF has no runnable tests; a missed cell needs polynomials with common factors, mixed rational and irrational roots, or a particular variable order.",
 ["GRF/grf.sage"], [("projection", "GRF/grf.sage QE_Factory.bm_proj, filter_proj_set, projection_phase, ProjOrd"), ("root isolation and sector points", "GRF/grf.sage QE_Factory.iso_root_intvls, sector_sps, k_random_sps"), ("lifting", "GRF/grf.sage QE_Factory.base_phase, stack_over_cell, lifting_phase")],
 observe=["QE_Factory.sample_pt_dicts return value"])

prop("C20", "GRF's bad subsets and suggested hypotheses are right",
 "At every point where the current goal fails, the bad subsets GRF reports are sets of hypotheses that are exactly the ones true at some sampled point where the goal fails, and the hypotheses true at any such sampled point, including none at all, are contained in one of them. If all remaining hypotheses are true at such a point a counterexample is reported instead, and where the goal holds nothing is. For every collection of bad subsets, the suggested hypotheses lie in none of them and have the least total weight, weights being at least one and larger for hypotheses that share no variable with the goal than for those that do.",
 ["inputs", "schedules"], "every list of hypotheses, goal, point, outcome of the sampling, and collection of bad subsets",
 "GRF has no runnable tests; the failing cases need a particular truth pattern of the hypotheses or a tie in the optimisation.",
 ["GRF/grf.sage", "GRF/local_search.py"], [("bad subsets", "GRF/grf.sage RCF_GD_Decide.bad_subsets_on_dict"), ("local search for further points", "GRF/local_search.py local_search_sampling, VarOrder"), ("weighted hitting set", "GRF/grf.sage RCF_GD_Decide.good_hyps, weight_hyps")],
 state=[("variable order", "order used to turn points into vectors", "GRF/local_search.py VarOrder.order")], observe=["bad_subsets_on_dict, good_hyps and weight_hyps return values"])

prop("C21", "A GRF run ends in a real counterexample or a correct hiding list",
 "For every sequent, every outcome of the sampling and every interactive session, a GRF run ends in one of two ways. Either it reports a counterexample, and then all antecedent formulas are true and all succedent formulas false at the reported point; or it returns positions of the sequent's own antecedent and succedent formulas to hide, and what is left has no counterexample at which none of its polynomials vanishes. The last succedent formula is never hidden, and everything else is hidden when that formula alone holds everywhere. The result does not depend on sequents processed earlier in the session.",
 ["inputs", "histories", "schedules"], "every sequent, every sequence of sequents in a session, every interactive command sequence, every sampling outcome",
 "GRF has no runnable tests; failures need several succedent formulas, a particular order of promotions, or an earlier problem over other variables.",
 ["GRF/grf.sage", "GRF/smt2.py", "GRF/local_search.py"], [("promotion loop", "GRF/grf.sage RCF_GD_Decide.check, promote_right"), ("sequent to problem and back", "GRF/smt2.py SMTContext.perform_grf")],
 state=[("problem", "remaining hypotheses and goal", "GRF/grf.sage RCF_GD_Decide"), ("variable order", "class attribute shared by all problems", "GRF/local_search.py VarOrder.order")], observe=["hiding_result, sequent_str, Counterexample exception"])

prop("C22", "GRF reads sequent files and writes hiding lists faithfully",
 "For every well-formed text of relations, GRF reads one atom per relation, in order, with the same relation symbol and with the polynomial left minus right as exact rational polynomial in the named variables; different names stay different variables however many there are. Text that is not of the format is refused. The result file of a run holds the sequent's own name and exactly the positions of the hiding list, and the returned pair counts them.",
 ["inputs"], "every term, number form, variable name and layout; every file",
 "GRF has no runnable tests; a misread sign, decimal or argument order changes the problem silently.",
 ["GRF/smt2.py"], [("grammar and parse actions", "GRF/smt2.py ParseSMT"), ("ring growing with new variables", "GRF/smt2.py SMTContext.get_ring_var"), ("file front end", "GRF/smt2.py grf_on_file")],
 observe=["fmlsTokenList return value", "result file and return value of grf_on_file"])
