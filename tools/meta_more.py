T.append(P("C14", "Overflow flag reports every unusable evaluation, never a usable one",
 "After every evaluation the overflow flag tells whether the result is usable. In every route it is set when the result is not finite, clear at regular points whose contributions all lie well below the precision cutoff, and independent of earlier evaluations. Without on-the-fly rebuilding it is also set when the result is too large to consist of contributions below the cutoff, and in the plain routes when any single contribution exceeds it.",
 ["inputs", "histories"], "all solutions and points, regular, singular and overflowing, all cutoffs, all routes, any earlier use of the object", "One test looks at the flag once, for one route.",
 [EV, TE, H], [("flag reset per evaluation, set for terms above the cutoff", EV), ("same for terms", TE)],
 "property-based testing: generated regular, singular and large cases against recomputed contributions", "Cases close to the cutoff are left undecided by the oracle.", ["overflow_detected"]))
T.append(P("C15", "No call on valid input reads or writes out of bounds",
 "Constructing, factorising, differentiating, printing and evaluating any well-formed problem, including degenerate shapes (no factors left, no poles, one factor, no integrations, empty lists), performs no invalid memory access, uses no uninitialised memory, does no undefined arithmetic and terminates.",
 ["inputs", "histories"], "all well-formed problems and call sequences", "The tests run few shapes and without sanitizers; several code paths index vectors by content.",
 [B, CO, EV, OP, TC, TE, TO], [("indexing of S, P, R, terms and factorisation lists", EV)],
 "property-based fuzzing of the public API under AddressSanitizer, UndefinedBehaviorSanitizer and container assertions, and under memcheck", "Ill-formed inputs (mismatched sizes) are outside the contract.", ["absence of sanitizer reports"]))
T.append(P("C16", "Multiprecision build agrees and resolves what double cannot",
 "Built with multiprecision support, every evaluation route returns the exact sum in the domain where double precision suffices. The routes over terms and over factorised products multiply and accumulate in quadruple precision, so they stay accurate where large contributions cancel.",
 ["inputs", "configurations"], "all products and points, the BOOST_MP configuration", "The tests are run in the double precision build only.",
 [EV, TE], [("evaluation in float128", TE), ("product of factors in float128", EV)],
 "property-based testing of the BOOST_MP build against the 448-bit reference, including nearly degenerate points", "Energies enter through double precision sums, which bounds what can be expected.", ["evaluate", "eval_gprod_mp", "evaluate_term_mp"]))
T.append(P("C17", "Python module does exactly what the C++ library does",
 "Every type, attribute, container and function of the Python module has the meaning of its C++ counterpart. Solutions built and evaluated from Python are identical to those built in C++, attributes written from Python take effect, and containers convert without loss.",
 ["inputs"], "all exposed classes and functions on random problems", "No test of the repository imports the module.",
 [PY + "pyami.cpp"], [("bindings", PY)],
 "differential property-based testing: the bindings in an embedded interpreter against direct C++ calls", "Compiled from the working tree with an embedded interpreter.", ["pyami.AmiBase"]))
T.append(P("C18", "Separate objects may be used in parallel; shared solutions are read-only",
 "Threads working with separate solver objects, evaluating a solution they share, get the results of a serial run, with no data race and no hidden global state.",
 ["schedules"], "all interleavings of construction, factorisation and evaluation on separate objects", "The tests are single threaded.",
 [B, EV, H], [("state lives in the object only", H)],
 "property-based testing of random concurrent programs under ThreadSanitizer against serial results", "Races are found by happens-before analysis on the executions explored.", ["evaluate"]))
T.append(P("C19", "All poles are found, once, with multiplicity and origin",
 "For every product and frequency, the poles found are exactly the distinct solutions of the vanishing factors, each with its multiplicity and the factors it stems from; signs, starting weights and remaining factors follow. Only fermionic zero-energy poles, which lie in the contour itself, may be left out, and the option to keep them works.",
 ["inputs"], "all products with coefficients 0, +1, -1, with repeated, reversed and zero-energy factors", "The tests check one product.",
 [CO], [("pole finding and merging", CO), ("weights and reduction", CO)],
 "property-based testing against a direct model", "Known finding: zero-energy poles at bosonic external frequencies, see known_findings.txt.", ["find_poles", "find_signs", "get_starting_sign", "reduce_gprod"]))
T.append(P("C20", "Every level of a solution is well-formed and exact by itself",
 "At every level of the symbolic solution the lists of products, poles and signs correspond one to one. Nothing depends on a frequency already summed, derivative orders and weights are consistent, each level is the exact sum over one frequency of the level before, and the term form describes the same contributions.",
 ["inputs"], "all products, all levels", "The tests check array sizes for one graph.",
 [CO, TC], [("one integration step", CO), ("same for terms", TC)],
 "property-based testing: structural invariants, multiset comparison of the two forms, and a per-level reference sum", "Each level is checked against the reference with the later frequencies fixed.", ["construct"]))
T.append(P("C21", "Species labels survive the summation and never change values",
 "The species label of every propagator is carried through all residues, derivatives and the term form to the factor it turns into; factorisation keeps species apart, and labels never change a numerical value.",
 ["inputs"], "all products and labelings", "No test sets a species.",
 [CO, TC, OP], [("update of a factor at a pole", CO), ("equivalence of factors", OP)],
 "property-based testing: provenance through unique labels, and values under random labels", "Each line gets a label of its own, so that a label names its origin.", ["species_"]))
T.append(P("C22", "Equivalence tests are exact",
 "Two propagators, poles or factor lists are reported equivalent exactly when they agree for every value of the variables (up to the reported sign, where one is reported), propagators of different species are never merged, and the relations are reflexive, symmetric and transitive with consistent signs.",
 ["inputs"], "all pairs and triples", "Not tested directly; simplification is only sound if these are exact.",
 [CO, OP], [("g_equiv, pole_equiv", CO), ("g_struct_equiv, pair_v_equiv", OP)],
 "property-based testing: near-miss pairs against the definition, equivalence laws and numerical values", "Pairs are variations of each other, so that all outcomes are frequent.", ["g_equiv", "pole_equiv", "g_struct_equiv", "pair_v_equiv"]))
T.append(P("C23", "Derivative with respect to the external frequency is exact",
 "Differentiating a factorised solution yields the derivative of the exact sum with respect to the last external frequency, to first and repeated order, for both solution forms, and zero when nothing depends on that frequency.",
 ["inputs"], "all factorised solutions and points", "No test calls it.",
 [OP], [("derivative_opt", OP)],
 "property-based testing against numerical contour differentiation of the reference sum", "Known finding: expressions without any propagator, see known_findings.txt.", ["derivative_opt"]))
T.append(P("C24", "Evaluation options do what they document and nothing else",
 "The regulator displaces arguments of distribution functions away from zero and nothing else. Dropping derivative terms removes exactly the terms with derivatives of distributions, dropping divergent bosonic terms removes exactly those at zero energy, and settings unrelated to the value (verbosity, cutoff, tolerance, interaction type) never change it.",
 ["configurations", "inputs"], "all combinations of options, including exactly vanishing pole energies", "The tests use the defaults.",
 [EV, TE, H], [("distribution of a pole", EV)],
 "property-based testing: independent evaluation of the symbolic solution with the documented meaning of each option", "Energies exact in binary, so that zeros are exact.", ["evaluate", "drop_der", "drop_bosonic_diverge", "E_REG_"]))
T.append(P("C25", "Printed objects show exactly what is stored",
 "Printing a factor, pole, product, term or solution shows what it consists of: species, energy and frequency coefficients, spectral shifts, derivative orders, signs and the grouping into products, poles and levels, in order, none omitted or repeated. What is printed reads back as these parts, and printing changes nothing.",
 ["inputs"], "all factors, poles, products, terms and solutions", "No test looks at printed output.",
 [OP, TC, EV, B], [("print functions of factors and poles", OP), ("print functions of terms", TC), ("print functions of solutions", EV)],
 "property-based testing: round trip of random objects and solutions through the printed text", "The layout is left open; the names in use and the brackets are not. Signs are printed with six digits.", ["print_final", "print_terms", "print_g_struct_info"]))
T.append(P("C26", "Every symbolic step is an identity of functions",
 "Replacing a frequency by a pole, in a factor or another pole, gives exactly the function of the remaining variables. The derivative of a product or term is its derivative for arbitrary distribution functions, and the residues of a product or term at a pole of any multiplicity equal the contour integral around it. Inputs are left alone, and factors, poles, terms, variables and parameters hold exactly what they are built from, with documented defaults for the rest.",
 ["inputs"], "all factors, poles, products and terms", "The tests compare whole solutions of a few diagrams, where errors in one step can cancel or stay hidden.",
 [CO, TC, H], [("substitution, residue and derivative of products", CO), ("residue and derivative of terms", TC), ("constructors", H)],
 "property-based testing: exact integer evaluation of substitutions, free values for distributions, contour integrals for residues", "Independent of statistics and of the evaluation code: the distribution is replaced by an arbitrary function.", ["update_G_pole", "update_Z_pole", "simple_residue", "evaluate_general_residue", "take_derivative_gprod", "terms_general_residue", "take_term_derivative"]))
