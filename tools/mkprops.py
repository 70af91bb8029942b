import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="libclingo-dl/src/graph.cc"; R="libclingo-dl/src/propagator.cc"; A="libclingo-dl/src/parsing.cc"; C="libclingo-dl/src/clingo-dl.cc"; O="app/lib/src/app.cc"; M="app/src/main.cc"; H="libclingo-dl/clingo-dl/util.hh"; CF="libclingo-dl/clingo-dl/config.hh"
p("C01","Every reported model comes with an assignment satisfying its constraints",
 "Whenever a model is reported, the integer values reported with it satisfy every difference constraint of a true head atom and every difference constraint of a true body atom, and violate the constraint of every false body atom, taking the constant 0 as zero. Every variable occurring in a constraint that the model enforces has a value. This holds for every option setting, as long as all path sums fit into 32 bit.",
 ["programs","configurations","schedules"],"all programs with difference constraints, all option combinations, all search orders of the solver, one or several solve calls",
 "The tests solve a few fixed programs (flow shop, small hand-written ones) under a few option sets; the claim is about every program and every search order.",
 [G,R],[("cycle check and potentials",G+": check_cycle_, set_potential_"),("normalization into edges",R+": normalize_constraint_"),("value extraction",R+": lower_bound, extend_model")],
 [("assignment","value of each variable per thread")],["clingodl_assignment_*","models"])
p("C02","Enumeration returns exactly the answer sets of the program",
 "Enumerating all models of a program with difference constraints yields exactly its answer sets: none is missing, none is spurious, and a program is reported unsatisfiable exactly if it has none. A true head atom imposes its constraint and a false one imposes nothing, while a body atom is true if and only if its constraint holds. An answer set is reported once for each consistent way of choosing, for every head `!=` that is true and every body `=` that is false (or body `!=` that is true), the side (smaller or greater) on which the constraint is decided.",
 ["programs","configurations"],"all ground programs with choice rules, rules, integrity constraints and difference constraints in heads and bodies",
 "Tests compare model sets for a few dozen literal programs; missing or spurious answer sets depend on the combination of constraints and the search order.",
 [R,G,A],[("normalization",R+": normalize_constraint_, add_edges_"),("conflict clauses",G+": check_cycle_")],None,["models","solve result"])
p("C03","Every clause added by the theory is implied by the constraints",
 "Each clause the theory hands to the solver during propagation or preprocessing is a logical consequence of the difference constraints: the constraints whose literals the clause denies can never hold together. In particular no clause ever removes an answer set, whatever the propagation mode, budget, decision level or search history.",
 ["schedules","histories","configurations","inputs"],"all constraint systems, all sequences of assignments, backjumps and restarts, all propagation options, any number of threads",
 "Tests only look at final model counts of a few programs; a wrong clause that happens to remove no sampled model goes unnoticed.",
 [G,R],[("negative cycle extraction",G+": check_cycle_"),("weak propagation reasons",G+": cheap_propagate_"),("full and zero propagation reasons",G+": propagate_edge_false_"),("mutexes",R+": calculate_mutexes_")],None,["clauses passed to the solver"])
p("C04","Inconsistent constraint sets are refuted as soon as they are complete",
 "As soon as the solver has told the theory about a set of true constraints that cannot hold together, the theory reports a conflict in that very propagation step by adding a clause violated by the current assignment; otherwise propagation succeeds and the true constraints are consistent. The theory never misses a literal that makes a constraint true, also after backjumps, restarts, when propagation is switched off by a budget or level limit, and in later solve calls.",
 ["schedules","histories","configurations"],"all constraint systems and all sequences of assignments, backjumps, restarts and solve steps, under all propagation options",
 "Tests only check the outcome of whole searches, where a late conflict is masked by the final solution check or by a different search path.",
 [G,R],[("incremental negative cycle detection",G+": check_cycle_"),("watches",R+": add_edge_, do_propagate"),("facts of previous steps",R+": check, FactState")],None,["propagate callback"])
p("C05","Assignments depend only on the constraints in force, not on the history",
 "At any time the value of each variable is a function of the set of constraints that are currently true (and the constraints known so far, which determine the connected components): the greatest potentials not above zero that satisfy them, shifted so that the constant 0 has value zero. Adding constraints and then backtracking, any order of adding them, edge sorting, propagation strength, budgets and heuristics never change these values, and exactly the variables occurring in some true constraint have one.",
 ["histories","schedules","configurations"],"all histories of assignments and backjumps over all constraint systems, all options",
 "Tests compare values at models of a few programs with a fixed search; they never compare the state after backtracking with a state reached directly.",
 [G,R],[("potential stack and trail",G+": set_potential_, backtrack, ensure_decision_level"),("value extraction",R+": lower_bound")],[("potentials","current value per variable")],["clingodl_assignment_*"])
p("C06","Each propagation mode delivers the strength it promises",
 "When propagation finishes without conflict, mode inverse and stronger have made false every constraint that contradicts a single true constraint over the same two variables; mode zero has made false every constraint that contradicts the true constraints through a cycle over the constant 0 (or the origin of its component); mode full, and every mode below the root level limit, has made false every constraint that contradicts the true constraints. Per-thread settings apply to exactly that thread.",
 ["schedules","configurations","inputs"],"all constraint systems, assignment sequences and option combinations",
 "The tests only compare model counts, which do not change when propagation gets weaker.",
 [G,R,CF],[("inverse propagation",G+": propagate_simple_"),("zero propagation",G+": propagate_zero_, dijkstra_bounds"),("full propagation",G+": propagate_full_, dijkstra_full"),("level limit",R+": do_propagate")],None,["assignment after propagation"])
p("C07","Mutex preprocessing adds all and only valid small mutexes",
 "With add-mutexes=<max>[,<cut>], every clause added in preprocessing excludes a set of at most max undecided constraints that, with the constraints already true, contains a negative cycle. If the cut is large enough, every pair of free constraints that form a negative cycle on their own is excluded for max at least 2. Without the option no such clause is added.",
 ["inputs","configurations"],"all constraint systems, all values of max and cut, all steps of a multi-shot run",
 "Tests run mutexes on one or two programs and only look at the model count.",
 [R],[("mutex search",R+": calculate_mutexes_"),("option",C+": parse_mutex")],None,["clauses added while initializing","statistics"])
p("C08","All six relations mean what they say in heads and bodies",
 "For each of <=, <, >=, >, = and !=, with zero, one or two variables on either side, a head constraint in force restricts the difference exactly as written, and a body constraint is true exactly if the difference satisfies the relation, also below default negation and when its truth value is fixed by the program. The boundary values k-1, k and k+1 are distinguished exactly.",
 ["inputs","programs"],"all relations, constants, placements of variables, signs and occurrences in heads and bodies",
 "Tests contain a handful of relation/constant combinations each; off-by-one and sign errors depend on the particular combination.",
 [R,A],[("normalization",R+": normalize_constraint_, add_edges_"),("epsilon","libclingo-dl/src/theory.cc")],None,["models"])
p("C09","Linear terms are evaluated exactly and everything else is rejected",
 "A difference constraint whose sides are arbitrary arithmetic expressions (nested +, -, unary minus, multiplication by constants and, for constants, division, on either side of the relation, with repeated variables) means the difference constraint obtained by exact evaluation. If after cancellation it is not of the form u - v rel k with coefficients 1 and -1, is nonlinear, divides by zero, or overflows 32 bit while being evaluated, it is rejected with an error and never silently changed or wrapped around. Variables may be arbitrary terms and equal terms denote the same variable.",
 ["inputs"],"all theory terms on both sides of the guard, including values close to the 32 bit limits",
 "Tests list about thirty literal atoms; nesting, cancellation and near-overflow values are unbounded.",
 [A,R,H],[("parse_elem/evaluate/simplify",A),("checked arithmetic",H),("form check",R+": add_edges_")],None,["values and errors of a solve"])
p("C10","Multi-shot solving agrees with solving the accumulated program from scratch",
 "After any sequence of grounding new parts, assigning or releasing externals, solving under assumptions and changing the number of solver threads, each solve call returns exactly the answer sets of the program accumulated so far, and their assignments satisfy the constraints of all earlier steps. Constraints that became facts in earlier steps stay in force and new constraints can connect formerly independent variables.",
 ["histories","programs","configurations"],"all sequences of multi-shot steps",
 "Tests have two short multi-shot scripts; interactions of facts, new edges and merged components depend on the history.",
 [R,G],[("facts repropagation",R+": check, FactState, initialize_states_"),("component recalculation",R+": cc_calculate_"),("incremental watches",R+": add_edge_")],None,["models of each solve call"])
p("C11","Options change the search, never the result",
 "The set of answer sets and satisfiability are the same for every value of propagate, propagate-root, propagate-budget, add-mutexes, sort-edges, dl-heuristic, compute-components and the number of solver threads, globally or per thread, in every combination; no combination leads to an error or crash. Except for compute-components, the options do not change the values reported with an answer set either.",
 ["configurations","programs"],"all combinations of options over all programs",
 "Tests try a fixed short list of option sets one at a time; combinations (for example zero with a budget) are never tried.",
 [G,R,C],[("mode dispatch",G+": add_edge"),("budget and level limit",R+": do_propagate"),("components",R+": cc_calculate_")],None,["models under different options"])
p("C12","Minimization finds the optimum and proves it",
 "When a variable is minimized, the search terminates, the last reported model has the least value the variable can take in any answer set under an assignment satisfying its constraints (subject to the initial bound), and every further model is strictly better than its predecessor. This holds for every step size factor and initial bound; if no answer set satisfies the initial bound the result is unsatisfiable. If a search is cut short by a limit on its length, minimization ends without claiming an optimum, and models reported until then are still improving and correct. Minimizing real values is rejected with an error.",
 ["programs","configurations","histories"],"all programs, variables, factors and initial bounds, all orders in which models are found",
 "Tests run a few flow shop instances with factors 1 and 2; the bound arithmetic depends on the sequence of satisfiable and unsatisfiable steps.",
 [O,M],[("branch and bound loop",O+": Optimizer::solve, on_model, prepare_")],[("bounds","upper, lower and search bound")],["models, grounded bounds, statistics"])
p("C13","Optimization bounds reported and used are always valid",
 "While minimizing, every upper bound added permanently is exactly one less than the value of a model already found (or the initial bound), every search bound is retractable and is retracted before another replaces it, and the reported lower bound never exceeds the optimum. The statistics report the value of the best model as optimization.",
 ["histories","programs","configurations"],"all sequences of satisfiable and unsatisfiable search steps, all factors and initial bounds",
 "Tests check the final optimum of a few programs only and never the intermediate bounds or statistics.",
 [O],[("bounds",O+": on_model, prepare_, add_stats")],None,["grounding calls and statistics"])
p("C14","Solver threads have isolated theory states",
 "What one solver thread assigns, propagates, undoes or learns never changes the values, conflicts or propagations the theory reports for another thread, under every interleaving of their callbacks. A model found by a thread carries the values of that thread, and enumeration with several threads gives the same answer sets as with one.",
 ["schedules","configurations"],"all interleavings of propagation callbacks of up to 64 threads",
 "Tests hardly use threads and cannot control interleavings.",
 [R,G,CF],[("per thread state",R+": ThreadState, states_, facts_"),("per thread options",CF)],None,["values per thread"])
p("C15","Options accept exactly the documented values and reach the right instance",
 "Configuring an option accepts exactly the documented values (case-insensitively for names; numbers up to 64 bit; an optional thread number below 64 where documented) and rejects everything else with an error naming the option, through the API and on the command line alike. An accepted value takes effect for the configured theory instance, and if given with a thread number exactly for that thread; other instances in the same process and other options keep their settings.",
 ["inputs","configurations","histories"],"all option values and all sequences of configuration calls, several theory instances per process",
 "Tests configure a few valid values and no invalid ones.",
 [C,CF],[("option parsers",C+": parse_*, set_config, clingodl_configure"),("per thread configuration",CF+": get_prop, ensure")],None,["clingodl_configure results and resulting behaviour"])
p("C16","Shifting constraints preserves the answer sets",
 "With shift-constraints, difference constraints may be moved from bodies of integrity constraints to heads with negated relation; satisfiability and the answer sets projected to the symbolic atoms stay the same for programs in which every difference constraint occurs in integrity constraints or heads. Statements that are not integrity constraints and signs of literals are respected.",
 ["programs"],"all programs whose difference constraints occur in integrity constraints, with any signs and relations",
 "Tests rewrite about ten rules and compare text.",
 [A],[("shift",A+": shift_rule, negate_relation")],None,["models with and without the option"])
p("C17","All ways to read the assignment agree",
 "For each model, the dl/2 symbols added to it, iterating over the assignment, and looking up each variable give the same variable/value pairs; lookup finds exactly the terms used as variables, and the symbol of an index maps back to that index. Indices stay valid in later solve calls, internal origin variables and the constant 0 are never reported.",
 ["programs","histories"],"all programs and multi-shot histories",
 "Tests iterate assignments of a few programs and do not compare the access paths.",
 [C,R],[("assignment access",C+": clingodl_lookup_symbol, clingodl_assignment_*"),("model extension",R+": extend_model")],None,["C API calls and model symbols"])
p("C18","Statistics are consistent and accumulate exactly",
 "After each solve call the reported counts of constraints edges, mutexes and connected components describe the current constraint system, per-thread counters count exactly the work of that step (each added edge counted once), and the accumulated statistics are the sums of the step statistics over all steps and threads so far. Reporting statistics never crashes or alters results, for any sequence of thread numbers.",
 ["histories","configurations"],"all multi-shot histories with statistics enabled and any numbers of threads",
 "Tests never check the content of statistics.",
 [R,G,C],[("accumulation",R+": Statistics::accu; "+G+": ThreadStatistics::accu"),("reporting",C+": on_statistics")],None,["clingodl_on_statistics"])
p("C19","The decision heuristic only picks a phase and picks it as documented",
 "With dl-heuristic min (max) a decision on a literal of a constraint is flipped exactly if that makes the decided constraint consistent (inconsistent) with the current assignment of the variables, using the literal's constraint or that of its complement; all other decisions and all decisions without the option are left unchanged. The returned literal is always the fallback or its complement.",
 ["schedules","configurations","inputs"],"all constraint systems, assignments and fallback literals",
 "Tests run the heuristic on one program and check only the models.",
 [R,C,G],[("decide",R+": decide; "+G+": edge_is_negative"),("registration",C+": DLPropagatorFacade")],None,["decide callback"])
p("C20","Real-valued constraints behave like integer ones on exactly representable values",
 "With rdl, programs whose head constraints use <=, >= and = with constants and sums exactly representable as doubles have exactly the answer sets given by the semantics of difference constraints over the reals, with assignments that satisfy them. The result does not depend on the propagation options, body constraints are rejected with an error, and < and > are strict by the documented epsilon.",
 ["programs","configurations"],"all rdl programs over multiples of 1/4 (dyadic values), all propagation options",
 "Tests solve two or three rdl programs.",
 [G,R,A,"libclingo-dl/src/theory.cc"],[("double instantiation",G+": Graph<double>"),("number parsing",A+": parse_number")],None,["models"])
p("C21","Connected components do not influence each other",
 "With compute-components (the default), the values of variables in one connected component of the constraints depend only on the true constraints of that component. The constant 0 does not connect components, and the values of a component are always relative to 0 having the value zero.",
 ["programs","histories"],"all constraint systems with several components, also when components appear or merge over time",
 "Tests have two programs with components and a fixed search.",
 [R],[("component computation and zero vertices",R+": cc_calculate_, cc_reset_, lower_bound")],None,["values per component"])
p("C22","Rewriting tags difference constraints and leaves all else untouched",
 "Passing a program through the theory's rewriting changes only difference constraints: each is marked as head or body constraint according to its place, pools in it are expanded, and every other statement is passed on with the same meaning and in the same order. A difference constraint with no or several elements, several terms in its element, or a condition is rejected with an error.",
 ["programs","inputs"],"all programs, statement kinds, places of difference constraints, pools",
 "Tests rewrite a dozen statements.",
 [A,O,C],[("transform",A+": TheoryRewriter, transform, tag_terms"),("statement streaming",O+": Rewriter")],None,["rewritten statements"])
p("C23","The Python package mirrors the C API",
 "The Python package's ClingoDLTheory offers the same configuration, rewriting, model, assignment and statistics operations with the same results as the C API. The package's application solves programs with these options and prints each answer set with its assignment.",
 ["programs","configurations"],"all programs and options used via Python",
 "Tests have no Python test in the stable set.",
 ["libpyclingo-dl/clingodl/__init__.py","libpyclingo-dl/clingodl/__main__.py","libpyclingo-dl/_clingodl.c"],[("cffi bindings","libpyclingo-dl/_clingodl.c, libpyclingo-dl/clingodl/__init__.py"),("application","libpyclingo-dl/clingodl/__main__.py: ClingoDLApp")],None,["Python API"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
