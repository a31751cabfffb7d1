#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only for
properties that have a check under props/). Run after editing the table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, H = "src/ami_base.cpp", "src/ami_base.hpp"
CO, EV, OP = "src/ami_base_construct.cpp", "src/ami_base_evaluate.cpp", "src/ami_base_optimize.cpp"
TC, TE, TO = "src/ami_base_terms.cpp", "src/ami_base_terms_evaluate.cpp", "src/ami_base_terms_optimize.cpp"
PY = "pyami_src/"

def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe))

T = []
T.append(P("C01", "S/P/R solution equals the exact Matsubara sum",
 "For every product of propagators 1/(X+E) whose internal frequencies are fermionic, evaluating the constructed S/P/R solution gives the exact multiple Matsubara sum (1/beta^n) sum over all internal frequencies of the product, times the prefactor. It holds for every loop order, momentum labelling, orientation, number of external frequencies, complex external frequency, energy, and temperature, to within floating point error.",
 ["inputs"], "all well-formed products (coefficients 0,+1,-1, independent integration variables), all numerical points where no non-symbolic denominator vanishes",
 "The tests evaluate about five fixed graphs at one point and compare with stored numbers; the statement quantifies over all graphs and points.",
 [CO, EV, B], [("pole finding, signs and residues applied per integration", CO), ("evaluation of S, P, R by dot, cross, star", EV)],
 "property-based testing: random diagrams against a 448-bit nested-residue reference model",
 "Random graphs up to 4 loops (6 in thorough) at random points; tolerance from the conditioning measured by the reference. Larger orders are not explored.",
 ["evaluate(parms, R, P, S, vars)"]))
T.append(P("C02", "Repeated propagators of any multiplicity are summed exactly",
 "When propagators are repeated (identical frequency and energy, in either orientation), poles of higher order arise, and every evaluation route must still return the exact Matsubara sum. This holds for every multiplicity and for nested repetition across integration steps.",
 ["inputs"], "all products with repeated factors, multiplicity up to 16 and nested up to three integrations, all routes (S/P/R, terms, factorised)",
 "The tests contain one double pole; the derivative machinery (signs, 1/(M-1)!, distribution derivatives, chain rule on already present distributions) has unbounded cases.",
 [CO, TC, EV, TE, B], [("general residue and product-rule derivatives", CO), ("term derivative", TC), ("derivatives of the distributions", EV)],
 "property-based testing: random multiplicities against the confluent limit of a simple-pole reference",
 "The reference never differentiates: repeated lines are displaced by 1e-14 in 448-bit arithmetic.",
 ["evaluate"]))
T.append(P("C03", "Term form equals the exact sum and the S/P/R form",
 "The term-by-term solution evaluates to the exact Matsubara sum, both as a whole and as the sum of its individually evaluated terms, and equals the S/P/R solution of the same product. This holds for simple and repeated poles and for fermionic and bosonic external lines.",
 ["inputs"], "all well-formed products and regular points", "The tests compare the two forms on two graphs at one point.",
 [TC, TE], [("term integration step", TC), ("term evaluation", TE)],
 "property-based testing: model oracle plus differential between the two solution forms", "Random products up to 4 loops.", ["evaluate(parms, terms, vars)", "evaluate_term"]))
T.append(P("C04", "Factorised evaluation equals plain evaluation",
 "Evaluating through the factorised (optimised) representation gives the same value as evaluating without it, for S/P/R and for terms, for every product, point and overall prefactor. Empty factorisation lists mean plain evaluation.",
 ["inputs"], "all solutions, points and prefactors", "Tests compare on one graph with prefactor 1, which hides errors in prefactor handling and in merging of repeated or oppositely oriented factors.",
 [OP, TO, EV], [("factorisation and merging of equivalent products", OP), ("optimised evaluation", EV), ("term factorisation", TO)],
 "property-based testing: differential (factorised vs plain) plus model oracle", "All four routes on every case.", ["evaluate with factorisation lists"]))
T.append(P("C05", "Factorisation describes exactly the given products, minimally",
 "The factorised representation expands back to exactly the list of products it was made from, term by term up to overall sign bookkeeping; every distinct factor is stored once, and no product is stored twice.",
 ["inputs"], "all lists of products, including repeated factors, opposite orientations and species", "Tests check sizes for one graph; faithfulness has to hold for any multiset of factors.",
 [OP], [("unique factor collection", OP), ("merging of products that differ by sign", OP)],
 "property-based testing: round trip (expand the factorisation and compare symbolically)", "Synthetic lists of products plus products from real solutions.", ["factorize_Rn", "factorize_terms", "reduce_rref"]))
T.append(P("C06", "A symbolic integration equals the direct frequency sum",
 "One more symbolic integration of a product equals summing the product, evaluated with one fewer integration, numerically over the Matsubara frequencies of the integrated line. This holds for both solution forms and without any knowledge of residues or distribution functions.",
 ["inputs"], "all products that decay fast enough for direct summation, both forms", "No test sums over frequencies.",
 [CO, TC, EV], [("residue theorem step", CO)],
 "metamorphic property-based testing: integrated solution vs truncated, tail-corrected frequency sum of the partially integrated one", "Tolerance from the tail bound; sums of a few thousand frequencies.", ["evaluate at N and N-1 integrations"]))
T.append(P("C07", "Graph type decides the statistics of the last frequency",
 "The graph type alone decides whether the last frequency is treated as fermionic or bosonic, for every type, and consistently in every evaluation route. For types with a bosonic external line all distribution functions and signs reflect its statistics.",
 ["configurations", "inputs"], "all 13 graph types, all routes, external and integrated last frequency", "Tests use two types at one point.",
 [EV, TE, CO], [("statistics derived from the coefficients and the type", EV)],
 "property-based testing over all graph types against the reference with explicit statistics", "Known exclusion: zero-energy poles at a bosonic external frequency, see known_findings.txt.", ["evaluate", "fermi_pole"]))
T.append(P("C08", "Distribution functions and all their derivatives",
 "The Fermi and Bose functions and their derivatives of every order are the analytic derivatives of 1/(sigma exp(beta E)+1) for every complex energy and temperature, with the limits 0 and -sigma for large arguments and no overflow in between.",
 ["inputs"], "derivative orders 0..12, both signs, beta*E in +-700, complex E", "Tests sample orders up to 5 at one energy.",
 [EV, B], [("recursive derivative coefficients", B), ("saturation for large arguments", EV)],
 "property-based testing against high-precision Taylor arithmetic plus reflection identities", "Tolerance relative to the conditioning of the expansion.", ["fermi_bose", "frk"]))
T.append(P("C09", "Results are invariant under notation",
 "Relabelling energies or integration frequencies, reordering factors, reversing an integration variable, shifting a loop momentum, reversing the orientation of a factor together with its sign, scaling of units, complex conjugation and padding by unused labels change the value only in the way mathematics dictates. Partial-fraction identities between products hold for their integrated values.",
 ["inputs"], "all products, all such rewrites and compositions of them", "No test relates two inputs.",
 [CO, TC, EV, B], [("all symbolic and numeric stages", CO)],
 "metamorphic property-based testing", "Fifteen kinds of rewrites and one algebraic identity.", ["evaluate"]))
T.append(P("C10", "Stepwise and reordered integration give the same sum",
 "Performing the integrations one at a time through the step functions, in any order of the frequencies, or leaving some frequencies unintegrated, gives the corresponding exact sum. Splitting a term into the active and the inert part loses nothing.",
 ["histories", "inputs"], "all orders of the integration steps and all subsets of frequencies", "Tests use only the built-in order.",
 [TC, CO], [("integration step for a chosen index", TC), ("array update for a chosen index", CO)],
 "stateful property-based testing of step sequences against the reference", "Up to 4 steps.", ["integrate_step", "update_gprod_general", "update_gprod_simple", "split_term"]))
T.append(P("C11", "On-the-fly evaluation is exact at degenerate energies",
 "On-the-fly evaluation returns the exact Matsubara sum also at points where energies coincide exactly so that denominators of the generic solution vanish, and agrees with plain evaluation elsewhere. Poles that arrive at zero energy on the contour, symbolically or only at the point, are left out, as documented for the default policy (drop_matsubara_poles), and the sum of all other contributions is exact.",
 ["inputs"], "all products with distinct labels and all patterns of coinciding energies", "One test point with one coincidence.",
 [EV], [("detection of coincidences and rebuilding of the affected products", EV)],
 "property-based testing: random coincidence patterns against the confluent reference", "Degeneracies from vanishing bosonic frequencies are outside the documented use.", ["evaluate_otf", "find_equal_values", "get_triggers"]))
T.append(P("C12", "Results do not depend on history; inputs are not modified",
 "Any call on an object used before for other problems gives exactly the result of the same call on a fresh object, repeated evaluation gives identical results, and no evaluation modifies the solution, the variables or the settings it is given.",
 ["histories"], "all sequences of API calls on one object over several problems", "Every test uses each object for one problem.",
 [B, EV, OP, TC], [("absence of hidden state", H)],
 "stateful property-based testing: random histories against a fresh object per call", "Bit-for-bit comparison.", ["all public functions"]))
T.append(P("C13", "Prefactor linearity and the documented building blocks",
 "The prefactor multiplies the result linearly in every evaluation route, zero integrations give the plain product, and the documented pieces of an evaluation (product of factors, energies, distribution of a pole including its spectral frequency shift, dot, cross and star) compute what the documentation defines.",
 ["inputs"], "all inputs of these functions", "Tests exercise each once.",
 [EV, B, TE], [("evaluation helpers", EV)],
 "property-based testing against direct formulas in extended precision", "Direct formula oracles.", ["eval_gprod", "get_energy_from_g", "get_energy_from_pole", "fermi_pole", "dot", "cross", "star"]))
exec(open(os.path.join(V, "tools", "meta_more.py")).read())

have = [e for e in T if os.path.exists(os.path.join(V, "props", e["id"].lower() + ".cpp"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for e in have:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(dict(id=e["id"], title=e["title"], statement=e["statement"],
            quantifier=dict(over=e["over"], text=e["qtext"]), why_tests_cant=e["why"],
            anchors=dict(files=e["files"], mechanism=[dict(name=n, where=w) for n, w in e["mech"]], observe_at=e["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup",
    checks=[dict(property=e["id"], quick_cmd="python3 check.py " + e["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + e["id"],
        evidence_file="evidence/%s.json" % e["id"], technique=e["technique"], level="exploration", level_note=e["note"]) for e in have],
    not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(have), "properties")
