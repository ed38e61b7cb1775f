#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the text is reviewable). Usage: python3 tools_props.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The virtual-term-substitution verdict is the truth about real solutions",
 "For every finite list of univariate polynomials required to be <= 0, < 0, = 0 and != 0, the VTS decision procedure answers true exactly when some real number satisfies all the constraints at once. The answer does not depend on the order in which the constraints are given, on repeated constraints, or on the problems decided before it in the same session. This includes irrational and multiple roots, constant and identically zero polynomials, and coefficients containing the algebra's infinitesimals.",
 ["inputs", "histories"], "every conjunction of sign constraints on univariate polynomials, in every order, after every history of earlier decisions",
 "test_vts.py decides a handful of hand-picked conjunctions; the guarantee ranges over all combinations of polynomials, relations, orders and multiplicities, and a wrong answer needs a particular configuration of roots.",
 ["vts/uni_vts.py", "vts/isym.py"],
 [("test points: roots of <= and = polynomials, points just right of roots of < and != polynomials, -infinity", "vts/uni_vts.py internal_vts"),
  ("allowed-sign table per polynomial", "vts/uni_vts.py sign_conditions_lookup"),
  ("sympy front end", "vts/isym.py vts")], observe=["isym.vts / internal_vts return value"])

prop("C02", "The plain term-substitution verdict is the truth and agrees with VTS",
 "For every finite list of univariate polynomials required to be <= 0, < 0, = 0 and != 0, the term-substitution decision procedure answers true exactly when some real number satisfies all the constraints at once. It therefore gives the same answer as the VTS procedure on every input.",
 ["inputs"], "every conjunction of sign constraints on univariate polynomials",
 "No existing test calls the term-substitution procedure at all.",
 ["vts/uni_vts.py", "vts/isym.py"],
 [("substitution of roots, root + infinitesimal, -1/infinitesimal", "vts/uni_vts.py internal_ts"),
  ("evaluation of all constraints at one point", "vts/uni_vts.py evaluate"), ("sympy front end", "vts/isym.py ts")],
 observe=["isym.ts / internal_ts return value"])

prop("C03", "Root encodings single out one root, and signs at it are computed correctly",
 "For every non-constant univariate polynomial, the derivative-sign encodings produced for its real roots are one per root, agree with the true signs of the derivatives there, and no two roots share one. The sign reported for any other polynomial at an encoded root is the true sign of that polynomial at that root.",
 ["inputs"], "every polynomial with up to four derivative signs needed, every one of its roots, every goal polynomial",
 "test_vts.py evaluates a few goals at the roots of three polynomials; correctness must hold for every root configuration, multiplicity and common factor.",
 ["vts/uni_vts.py", "vts/matrix_of_signs.py"],
 [("recursive split of roots by derivative sign", "vts/uni_vts.py get_discri_der_signs"),
  ("sign determination: inverse sign matrix times Tarski queries of products", "vts/uni_vts.py evaluate_single_on_sign_assignment, make_product_list, pick_sign_of_goal")],
 observe=["evaluate_single_on_sign_assignment return value", "DiscDerSigns sign lists"])

prop("C04", "The sign just to the right of a root is computed correctly",
 "For every real root of a polynomial and every other polynomial, the sign reported for the point infinitesimally to the right of that root is the sign the polynomial really has on a small enough interval to the right of it. It is zero only for the zero polynomial, however high the multiplicity of the common root.",
 ["inputs"], "every root of every polynomial, every goal polynomial including ones that share the root with any multiplicity",
 "The tests sample a few goal polynomials; the property is about every multiplicity pattern of shared roots.",
 ["vts/uni_vts.py"], [("first non-vanishing derivative", "vts/uni_vts.py e_close_evaluate_single_on_sign_assignment")],
 observe=["e_close_evaluate_single_on_sign_assignment return value"])

prop("C05", "Tarski queries, Cauchy indices and signed remainders are exact",
 "For all univariate polynomials p and q, the Tarski query of q at p equals the number of distinct real roots of p where q is positive minus the number where q is negative, and the Cauchy index equals the net number of jumps of q/p from minus to plus infinity. Every signed pseudo-remainder is a positive multiple of the true remainder, so that no sign in a remainder sequence is ever flipped, and products and derivatives of coefficient lists are exact.",
 ["inputs"], "all pairs of univariate polynomials (every degree drop in the remainder sequence, every sign of leading coefficients)",
 "Unit tests hold tables of a few dozen pairs; a flipped sign needs a particular parity of degree drop and sign of leading coefficient.",
 ["vts/uni_vts.py"], [("pseudo-division by a positive multiplier", "vts/uni_vts.py signed_pseudo_remainder"),
 ("sign variations at -inf and +inf", "vts/uni_vts.py signed_remainder_cauchy_index"), ("query through p' q", "vts/uni_vts.py tarski_query"),
 ("coefficient-list arithmetic", "vts/uni_vts.py multiply, derivative, make_product_list")],
 observe=["return values of tarski_query, signed_remainder_cauchy_index, signed_pseudo_remainder"])

prop("C06", "Sign matrices and their inverses are exact whatever the cache history",
 "For each supported number of polynomials n, the matrix of signs relates sign counts to Tarski queries of the products in the order the product list uses, and the inverse returned for n is its exact inverse. This holds for every sequence of requests, process restarts, and partial loss of the on-disk cache, and unsupported sizes are refused rather than answered.",
 ["histories", "inputs", "configurations"], "every sequence of matrix and inverse requests for supported sizes interleaved with restarts and deletions of cache files",
 "The tests look at the first matrices in one fresh process; what a request returns depends on the history of in-memory and on-disk caches.",
 ["vts/matrix_of_signs.py"], [("tensor-product recursion", "vts/matrix_of_signs.py new_get_matrix"), ("inverse with memory and disk cache", "vts/matrix_of_signs.py new_get_matrix_inverse"),
 ("disk cache", "vts/matrix_of_signs.py write_to_cache, cache_hit, read_cache")],
 state=[("lookup tables", "matrices already known in this process", "vts/matrix_of_signs.py module globals"), ("cache directory", "pickled matrices", "./cache")],
 observe=["get_matrix / get_matrix_inverse return values"])

prop("C07", "An interrupted or concurrent run never poisons the matrix cache",
 "If a process that is computing or storing sign matrices stops at any point of any write to the cache, or the write itself fails, every later process that uses the same cache directory still starts and gets exact matrices. The same holds for processes sharing one cache directory under every interleaving of their file operations.",
 ["crash_points", "schedules", "fault_sequences"], "every crash point (file operation and every prefix of the bytes written) of a cache-filling history, every interleaving of two processes' file operations up to a preemption bound, every single I/O failure",
 "No test kills a run or shares a cache directory; the window is inside a file write.",
 ["vts/matrix_of_signs.py"], [("cache write", "vts/matrix_of_signs.py write_to_cache"), ("cache probe and read", "vts/matrix_of_signs.py cache_hit, read_cache"), ("import-time cache use", "vts/matrix_of_signs.py load_or_create_inverse")],
 state=[("cache directory", "pickled matrices shared by all runs started in one directory", "./cache")],
 observe=["import of the module and return values after recovery"])

prop("C08", "Conversion to coefficient lists preserves the polynomial up to a positive factor",
 "Converting a univariate polynomial with rational coefficients to its coefficient list gives integer coefficients that, read as a polynomial, are a positive multiple of the original, with a non-zero last entry and the empty list for zero. Converting a coefficient list back gives exactly the polynomial it denotes, and input that is not a univariate polynomial with rational coefficients (several variables, irrational coefficients, division by the variable) is refused, never silently altered.",
 ["inputs"], "every univariate rational polynomial in any syntactic form, every integer coefficient list",
 "test_isym.py converts seven polynomials; a lost term, wrong denominator or sign flip depends on the particular coefficients.",
 ["vts/isym.py"], [("term collection", "vts/isym.py convert"), ("common denominator", "vts/isym.py convert_rationals_to_ints"), ("back conversion", "vts/isym.py convert_back")],
 observe=["convert / convert_back return values"])

prop("C09", "The parser gives every sequent text the meaning the format defines",
 "For every well-formed sequent text, the parser yields one example per sequent with the same name and the same antecedent and succedent relations in order, each relation having the written direction and strictness and terms equal in value to what prefix arithmetic says. This holds for every nesting of the operators, unary and binary minus, integer, trailing-dot and decimal literals, any variable name and any white space.",
 ["inputs"], "every term, relation and sequent the grammar admits, up to nesting depth",
 "test_grf_parser.py parses a few dozen fixed strings; the ambiguity between unary and binary minus, number shapes and keywords is combinatorial.",
 ["vts/grf_parser.py"], [("grammar and parse actions", "vts/grf_parser.py")], observe=["cmd.scanString / parseString results"])

prop("C10", "Sequent checking reports valid exactly for valid sequents",
 "For every univariate sequent with non-degenerate relations, the clauses produced for the decision procedure are jointly unsatisfiable exactly when every real number satisfying the whole antecedent satisfies every succedent relation, so the checker prints formula value True exactly for valid sequents. The run over an example store reports every example it decides and lists each invalid one, with either decision procedure.",
 ["inputs"], "every sequent over univariate relations (<=, <, =, !=, >=, >) in any order and multiplicity",
 "No test covers the checker; a mishandled negation or direction shows only for particular relation combinations.",
 ["vts/checker.py", "vts/isym.py", "vts/uni_vts.py"], [("negated succedent distributed over antecedent", "vts/checker.py vts_preformat, negate_relations, rewrite_to_less"), ("sorting into <=, <, =, !=", "vts/checker.py make_relation_map"), ("driver", "vts/checker.py check_examples")],
 observe=["vts_preformat + make_relation_map + decision", "check_examples output"])

prop("C11", "Making relations univariate keeps their meaning on the diagonal",
 "For every list of polynomial relations in any variables, the univariate version has one relation per input in order, right-hand side zero and a single variable, and it holds at a real number exactly when the original holds with all variables set to that number. The relation symbol is never changed.",
 ["inputs"], "every list of relations over any number of variables, both sides arbitrary polynomials",
 "No test calls it; simultaneous substitution mistakes need particular variable names and both sides non-trivial.",
 ["vts/examples_parser.py"], [("substitution and rearrangement", "vts/examples_parser.py make_univariate")], observe=["make_univariate return value"])

prop("C12", "What the example store writes is what every reader gets back",
 "After the examples in the source directory are parsed and stored, both readers of the store yield exactly the stored examples of every file, none lost, duplicated, reordered within a file or altered. This holds for any set of files and sequents and for repeated writes.",
 ["inputs", "histories"], "every small set of example files and sequents, every sequence of writes and reads",
 "No test writes or reads a store.",
 ["vts/examples_parser.py"], [("writer", "vts/examples_parser.py write_sympy_parseable_examples"), ("readers", "vts/examples_parser.py unpickle_dirs, unpickle_dirs_gen"), ("directory parser", "vts/examples_parser.py parse_example_dirs")],
 state=[("Examples directory", "one pickle per source file", "./Examples")], observe=["unpickle_dirs / unpickle_dirs_gen results"])

prop("C13", "Muchnik real elimination returns an equivalent quantifier-free formula",
 "For every list of polynomials required to be negative, zero and positive, the disjunction of sign assignments returned by the real Muchnik procedure holds at a real parameter point exactly when some real value of the eliminated variable meets all the requirements there. When there are no parameters the procedure reports satisfiable exactly when such a value exists.",
 ["inputs"], "every system of polynomial sign requirements in the eliminated variable and parameters, every real parameter point",
 "highschool_qe has no test of the elimination; equivalence at every parameter point (boundary cells, vanishing leading coefficients) is a statement about all inputs.",
 ["highschool_qe/muchnik.py", "highschool_qe/sympywrapper.py"], [("closure under derivative, tail and pseudo-remainder", "highschool_qe/muchnik.py muchnik_sequence"), ("sign-diagram extension", "highschool_qe/muchnik.py real_extend"), ("selection of satisfying assignments", "highschool_qe/muchnik.py real_full")],
 observe=["real_full return value and Satisfiable/Unsatisfiable line"])

prop("C14", "Muchnik complex elimination returns an equivalent quantifier-free formula",
 "For every list of polynomials required to be zero and non-zero, the disjunction returned by the complex Muchnik procedure holds at a complex parameter point exactly when some complex value of the eliminated variable meets all the requirements there. When there are no parameters the procedure reports satisfiable exactly when such a value exists.",
 ["inputs"], "every system of polynomial equations and disequations, every complex parameter point",
 "No test of the elimination exists; multiplicities and vanishing leading coefficients make the result depend on the parameter cell.",
 ["highschool_qe/muchnik.py", "highschool_qe/sympywrapper.py"], [("root-diagram extension with multiplicity count", "highschool_qe/muchnik.py complex_extend"), ("selection", "highschool_qe/muchnik.py complex_full")],
 observe=["complex_full return value and Satisfiable/Unsatisfiable line"])

prop("C15", "Cohen-Hormander elimination returns an equivalent quantifier-free formula",
 "For every non-empty list of polynomials required to be negative, zero and positive, the disjunction of sign assignments returned by the Cohen-Hormander procedure holds at a real parameter point exactly when some real value of the eliminated variable meets all the requirements there. This includes parameter points where leading coefficients vanish.",
 ["inputs"], "every system of polynomial sign requirements in the eliminated variable and parameters, every real parameter point",
 "The only tests of this module exercise one table helper (and are not run); equivalence must hold in every parameter cell.",
 ["highschool_qe/cohenhorm.py", "highschool_qe/sympywrapper.py"], [("recursive table construction with sign contexts", "highschool_qe/cohenhorm.py _real_table, expand_context"), ("table extension", "highschool_qe/cohenhorm.py extend_single_table"), ("selection", "highschool_qe/cohenhorm.py real_full")],
 observe=["real_full return value"])

prop("C16", "The caching algebra is indistinguishable from the plain one",
 "For every sequence of algebra operations, each answer of the caching algebra equals what the plain algebra answers for that operation alone, whatever was asked before. Elimination run on the caching algebra returns the same formulas as on the plain one.",
 ["histories", "inputs"], "every sequence of operations on every choice of arguments, including repeated and argument-swapped calls and falsy results",
 "No test uses the caching algebra; a stale or mixed-up entry needs a particular call history.",
 ["highschool_qe/cachedsympywrapper.py", "highschool_qe/sympywrapper.py"], [("two-level memo table keyed by operation and arguments", "highschool_qe/cachedsympywrapper.py _c_compute, _c_get, _c_put")],
 state=[("memo table", "results by operation and argument tuple", "highschool_qe/cachedsympywrapper.py")], observe=["operation results"])

prop("C17", "The polynomial operations the elimination procedures build on are exact",
 "For every polynomial in the eliminated variable and any parameters, the sympy algebra's leading term, leading coefficient, degree, tail, derivative, variable test and sign of a constant are exact. Pseudo-division of p by q returns quotient and remainder with lc(q)^k p = quotient q + remainder for the power k the procedures assume, the remainder being of lower degree than q, and division by a monic polynomial returns the exact quotient and remainder.",
 ["inputs"], "every polynomial and every pair of polynomials in the eliminated variable and parameters, in expanded or factored form",
 "No test covers these operations; degree drops, vanishing and parametric leading coefficients make the answer depend on the particular pair.",
 ["highschool_qe/sympywrapper.py"], [("leading term, coefficient, tail, degree", "highschool_qe/sympywrapper.py LT, LC, p_tail, degree"), ("division and pseudo-division", "highschool_qe/sympywrapper.py div, pseudo_div")],
 observe=["operation results"])

if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools_props_grf.py')):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools_props_grf.py')).read())

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
