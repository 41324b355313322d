#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the file stays schema-valid)."""
import json, os
Q="query/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
SATWHY="The truth-table tests need a SAT solver that is absent here and, where they run, sample a few hand-picked operands of dimension 1 to 4; the statement quantifies over every dimension and every operand value."
def atom(id,title,meaning,dirn,forms,extra="",over=("inputs","programs"),why=SATWHY,text=None):
    p(id,title,
      "The formula generated for "+meaning+" This holds for every combination of variable and constant operands the library offers, both as is and under negation"+extra+", and no legitimate value of a query variable is ever ruled out by the auxiliary clauses.",
      list(over), text or "all dimensions >= 1, all values of the constant operands, all valuations of the query variables, each variable/constant form of the operator",
      why,[dirn+"/"+f for f in forms],[("clause generation of each form (Encoding)",dirn+"/"+f) for f in forms],
      ["truth value of the returned formula under each valuation of the query variables"])

atom("P01","Subsumption formula means subsumption",
 "subsumption of e1 by e2 is true exactly when every feature defined in e1 has the same value in e2.",
 Q+"predicates/subsumption",["const_const.go","const_var.go","var_const.go","var_var.go"])
atom("P02","Less-or-equal-level formula compares the number of undefined features",
 "LEL of e1 and e2 is true exactly when e1 has at least as many undefined (bottom) features as e2.",
 Q+"predicates/lel",["const_const.go","const_var.go","var_const.go","var_var.go","utils.go"])
atom("P03","Node formula holds exactly for the instances of the model's nodes",
 "Node(e) over a decision tree is true exactly when some node of the tree has e as its instance: the features decided on the path from the root carry the path's values and all other features are undefined.",
 Q+"predicates/isnode",["const.go","var.go"],
 text="all decision trees (no feature repeated on a path), all numberings of their nodes with the root first, all dimensions, all constants and all valuations of the variable")
atom("P04","Full formula means no undefined feature",
 "Full(e) is true exactly when every feature of e is defined.",
 Q+"extensions/full",["const.go","var.go"])
atom("P05","Consistency formula means agreement on commonly defined features",
 "Cons(e1, e2) is true exactly when e1 and e2 have the same value on every feature that both define.",
 Q+"extensions/cons",["const_const.go","const_var.go","var_const.go","var_var.go"])
atom("P06","AllPos/AllNeg formula means every completion gets that class",
 "AllComp(e, c) over a decision tree is true exactly when every leaf reachable by a completion of e is labelled c, for c positive and for c negative.",
 Q+"extensions/allcomp",["const.go","var.go"],
 text="all decision trees, node numberings, dimensions, target classes, constants and valuations of the variable")
atom("P07","DFS formula means the defined features determine the class",
 "DFS(e) over a decision tree is true exactly when every instance that leaves the same features undefined as e has all its completions classified alike, that is, when any two differently labelled leaves disagree on some feature that e defines.",
 Q+"extensions/dfs",["const.go","var.go","utils.go"],
 text="all decision trees, node numberings, dimensions, constants and valuations of the variable")
atom("P08","Preference-rank formula means higher or equal preference rank",
 "HEPR(e1, e2) under a feature preference sequence is true exactly when, at the first feature of the sequence that exactly one of e1 and e2 defines, it is e1 that defines it, or there is no such feature; an empty sequence makes it true.",
 Q+"extensions/hepr",["const_const.go","const_var.go","var_const.go","var_var.go","util.go"],
 text="all dimensions, all preference sequences (including empty and partial ones), all constants and valuations")
atom("P09","Hamming-distance formula means less-or-equal distance between full instances",
 "LEH(e1, e2, e3) is true exactly when e1, e2 and e3 are all full and the Hamming distance between e1 and e2 is at most the one between e1 and e3.",
 Q+"extensions/leh",["const_const_const.go","const_const_var.go","const_var_const.go","const_var_var.go","var_const_const.go","var_const_var.go","var_var_const.go","var_var_var.go","utils.go"])
p("P10","Conjunction, disjunction and negation mean what they say",
 "The formula built for a conjunction, disjunction or negation of sub-queries is true exactly when the corresponding boolean combination of the sub-queries' formulas is, whatever the sub-queries are and however deeply they are nested. The world-defining (consistency) clauses of every sub-query are all kept and are never negated.",
 ["programs","inputs"],"all sub-queries, including trivially true and trivially false ones, and all nestings",
 "Tests use a handful of two-clause children and compare clause lists; the claim ranges over arbitrary children and nestings.",
 [Q+"logop/and.go",Q+"logop/or.go",Q+"logop/not.go"],
 [("composition of the children's formulas",Q+"logop/and.go"),("De Morgan composition",Q+"logop/or.go"),("negation",Q+"logop/not.go")])
p("P11","A declared variable ranges over exactly the partial instances",
 "Declaring a query variable constrains it to take exactly one of the three feature values on every feature of the model and leaves every one of those valuations possible. The constraints are part of the first formula built for that variable in a context, are never negated, and the sub-query's own formula is kept unchanged.",
 ["inputs","programs"],"all dimensions, all sub-queries, any number of declarations of the same variable in one context",
 "Tests check one dimension-1 model with fixed variable numbers.",
 [Q+"logop/with_var.go"],[("at-least-one and at-most-one clauses","logop.WithVar.encodeI"),("already-declared probe","logop.WithVar.encodeI")])
p("P12","The guarded quantifier covers every node instance exactly",
 "A guarded universal quantifier yields the conjunction of its body instantiated with the instance of every node of the model, each instance carrying the feature values decided on the path to that node and undefined elsewhere. Variables declared inside are kept apart between instantiations, and the quantifier's scope is closed again whenever it returns, with or without an error.",
 ["inputs","programs"],"all decision trees and node numberings, all bodies including failing ones, all nestings of quantifiers",
 "Tests walk a 3-node and a 5-node tree; the claim is over all trees, bodies and exit paths.",
 [Q+"logop/forallguarded.go"],[("node walk","logop.nodeAsValuesIter.Next"),("scope open/close and accumulation","logop.ForAllGuarded.buildEncoding")])
p("P13","Negating a formula inverts its meaning and nothing else",
 "The negation of a formula in conjunctive normal form is true exactly when the formula's semantic clauses are false, for every valuation satisfying its consistency clauses, all of which are retained; every such valuation still extends to the auxiliary variables introduced. The auxiliary variables are all new: larger than any variable of the formula and than the requested minimum.",
 ["inputs"],"all clause lists (empty, with empty, unit or long clauses), all values of the minimum variable, repeated negation",
 "Five fixed clause lists are compared literally by the tests.",
 ["cnf/cnf.go"],[("Negate / Tseytin transformation","cnf.CNF.Negate")],
 state=[("tv","largest variable in use","cnf.CNF")])
p("P14","Extending and joining formulas keeps every clause in its class",
 "Appending semantic or consistency clauses, joining two formulas, and building a formula from clauses yield exactly the union of the given clauses, each still in its own class. The trivially true and trivially false formulas and the tests for them denote what they say.",
 ["inputs"],"all formulas and clause lists",
 "Tests cover one literal example of each operation.",
 ["cnf/cnf.go"],[("AppendSemantics, AppendConsistency, Conjunction, FromClauses, Clauses, TriviallyTrue/False","cnf/cnf.go")])
p("P15","The reported top variable bounds every variable of the formula",
 "Whatever sequence of operations produced a formula, its reported largest variable is at least the absolute value of every literal in any of its clauses, and extending a formula or joining it with another never lowers the value it already reported.",
 ["inputs","histories"],"all sequences of formula-building operations",
 "Tests check the value on a few examples.",
 ["cnf/cnf.go"],[("tv maintenance in every constructor and operation","cnf/cnf.go")],
 state=[("tv","largest variable in use","cnf.CNF")])
p("P16","Formulas are values: deriving one never changes another",
 "An operation that returns a new formula leaves its receiver, its arguments and every formula previously derived from them unchanged, however the results are used afterwards.",
 ["histories","inputs"],"all histories of formula-deriving operations, including several derivations from the same formula",
 "Tests derive each formula once; the corruption needs two derivations sharing spare storage.",
 ["cnf/cnf.go"],[("slice growth in append-style operations","cnf/cnf.go")])
p("P17","Formulas are written as correct DIMACS",
 "Both serialisations of a formula emit one header line with a variable count that bounds every literal and the exact number of clauses, followed by every semantic and consistency clause exactly once, each as its literals in decimal terminated by 0 on its own line. A failure to create or write the file is reported as an error.",
 ["inputs","fault_sequences"],"all formulas, all write failures",
 "Tests serialise one six-clause formula and no failing write.",
 ["cnf/cnf.go"],[("ToBytes, ToFile, clause formatting","cnf/cnf.go")])
p("P18","Solver variables are unique, stable and positive",
 "Within a context, the same (variable, feature, value) triple always gets the same positive number, distinct triples get distinct numbers, and a new triple gets a number larger than any assigned or reserved so far. Asking whether a triple exists never creates it, and raising the reserved maximum never lowers it.",
 ["histories","inputs"],"all sequences of context operations",
 "No test exercises the variable manager directly.",
 [Q+"varmanager.go",Q+"context.go"],[("CNFVar / CNFVarExists / UpdateTopV / TopV",Q+"varmanager.go")],
 state=[("topv","largest number assigned","query.baseVarManager"),("vars","triple to number","query.baseVarManager")])
p("P19","Auxiliary variables of negations never collide with other variables",
 "Variables introduced while negating a sub-formula are numbered above everything the context has handed out at that moment, and the context is told about them before it can hand out another number. Hence no later sub-formula, variable or negation reuses them.",
 ["programs","histories"],"all queries built with the logical operators, all orders in which sub-queries allocate variables",
 "A collision only shows for particular nestings and needs a solver to be noticed.",
 [Q+"logop/not.go",Q+"logop/or.go",Q+"varmanager.go"],[("Negate(top) followed by UpdateTopV",Q+"logop/not.go"),("same, three negations",Q+"logop/or.go")])
p("P20","Components sharing derived variables agree on what they mean",
 "When several components of one query are given the same naming function, any derived variable they share is constrained to the same quantity by each of them, so combining them never makes a satisfiable query unsatisfiable or changes a component's meaning. Conversely different quantities get different derived variables: the operands and preference sequences passed to the naming function identify them unambiguously.",
 ["programs","inputs"],"all pairs of components, all operands and preference sequences, every documented naming function",
 "Tests never combine two components that share a derived variable.",
 [Q+"extensions/leh",Q+"extensions/hepr",Q+"predicates/lel",Q+"extensions/allcomp",Q+"predicates/isnode",Q+"instances.go"],
 [("arguments given to the naming functions and clauses defining the resulting variables","*.Encoding"),("preference and constant rendering","hepr.prefVar, query.QConst.AsString")])
p("P21","Scoping keeps instances of a variable apart and binds constants",
 "Inside guarded scopes a variable's scoped name depends on, and only on, the variable and the (quantifier, iteration) pairs of the scopes that were open when it was declared: different iterations or different variables never share a name and every mention of one declaration uses the same name. A constant named by an open scope takes that scope's current value, the innermost one if several match; closing a scope forgets exactly that scope and the variables declared in it, and misuse of an empty scope stack is an error.",
 ["histories","inputs"],"all scope stacks, declarations, iterations and names without the documented separator",
 "Tests look at single-scope examples only.",
 [Q+"scoper.go"],[("ScopeVar, AddVar, ScopeConst, AddScope, PopScope, SetScope",Q+"scoper.go")],
 state=[("scopes","open scopes","query.baseScoper"),("vars","declaration level of variables","query.baseScoper")])
p("P22","Evaluations are independent of what was evaluated before",
 "Resetting a context restores its original state completely, and evaluating a query atom or computing an optimum gives the same answer whether the context is new or was used for earlier evaluations.",
 ["histories"],"all histories of evaluations on one context and solver",
 "Tests use each context once.",
 [Q+"context.go",Q+"scoper.go",Q+"varmanager.go","compute/optimum.go","compute/boolcomb.go"],
 [("Reset of scoper, variable manager and context",Q+"context.go"),("reset before each step","compute/optimum.go"),("atom evaluation","compute/boolcomb.go")])
p("P23","The solver's verdict is reported faithfully",
 "A step succeeds only if the solver process ran on the query's own formula and exited with code 10, reports unsatisfiability only for exit code 20, and reports any other exit, a process that could not be run, or a failure to encode or write the formula as an error that is not the unsatisfiability sentinel. The recorded valuation is the output of the last satisfiable step and of no other.",
 ["inputs","fault_sequences"],"all exit statuses, process failures, encoding and write failures, and sequences of steps",
 "Package compute has no test that passes here, and its tests use a well-behaved solver.",
 ["compute/solver.go"],[("Step","compute.binSolver.Step"),("exit status decoding","compute.runSolver")],
 state=[("output","last satisfying output","compute.binSolver")])
p("P24","Boolean combinations of query atoms evaluate correctly",
 "An atom is true when its query is satisfiable, or unsatisfiable if marked negated; a conjunction is true exactly when all its elements are and a disjunction exactly when some element is. An error from any element that had to be evaluated is returned as an error and never as a truth value.",
 ["inputs","fault_sequences"],"all lists of elements (including empty), all verdicts and errors",
 "Package compute has no test that passes here; its tests have two-element lists and no failing solver.",
 ["compute/boolcomb.go"],[("Sat of atom, conjunction and disjunction","compute/boolcomb.go")])
p("P25","A computed optimum satisfies the property and nothing improves on it",
 "An optimum is reported only when a value satisfying the property was found and the solver proved that no value satisfying the property precedes it in the order; the reported value is that last satisfying one. Absence is reported only when the property itself is unsatisfiable, the reported number of solver calls is the number made, and every other outcome is an error.",
 ["inputs","fault_sequences","histories"],"all properties, orders, models, solver answers and failures at any step",
 "One test with one formula, which does not run here.",
 ["compute/optimum.go"],[("improvement loop","compute.ComputeOptim")])
p("P26","Retrieved values are the solver's valuation, feature by feature",
 "The constant retrieved for a query variable has one entry per feature of the model, equal to the value whose solver variable is true in the solver's output, reading all value lines of the output; if the output cannot be read or does not decide a feature, an error is returned instead.",
 ["inputs","fault_sequences"],"all solver outputs (any split in value lines, any order, missing or malformed literals), all dimensions and lists of variables",
 "No passing test reads solver output.",
 ["compute/solver.go"],[("value decoding","compute.varValueFromBytes"),("Values","compute.binSolver.Values")])
p("P27","No temporary file outlives a solver step or computation",
 "Every temporary file created while evaluating a query or computing an optimum is removed on every way out, including every error, and no other file is removed.",
 ["fault_sequences","inputs"],"all exits of every function that creates a temporary file",
 "No test inspects the temporary directory, and most exits need a fault.",
 ["compute/solver.go","compute/optimum.go"],[("deferred removal","compute.binSolver.Step, compute.ComputeOptim")])
p("P28","No failure is swallowed",
 "Whenever an operation the library performs reports an error, the library call it belongs to returns an error (the unsatisfiability verdict, which is an answer, excepted); it never returns a formula, value or verdict as if nothing had happened.",
 ["fault_sequences","programs"],"every call that can fail, in every library function, on every path",
 "The tests provoke very few of the failing paths.",
 ["cnf/cnf.go","compute/solver.go","compute/optimum.go","compute/boolcomb.go",Q],[("error propagation at each call that returns an error","whole module")])
p("P29","Invalid queries and models are rejected with an error, never a panic",
 "Encoding with a missing context, missing child, missing naming function, a constant of the wrong dimension, an out-of-range or repeated preference, an empty model where a model is needed, or a model node that the answer depends on whose feature or children are out of range returns an error and no formula. It neither panics nor silently yields a formula.",
 ["inputs"],"all malformed inputs of the listed kinds to every component, alone or together with valid ones",
 "Tests check the nil context and one wrong dimension per component; models are never malformed.",
 [Q+"predicates",Q+"extensions",Q+"logop",Q+"instances.go"],[("guards at the start of each Encoding","*.Encoding"),("dimension validation","query.ValidateConstsDim"),("node validation","logop.validateNode, dfs.validateNode, isnode.Const, allcomp.Const"),("preference validation","hepr.validatePref")])
p("P30","Encoding is deterministic and leaves queries, models and globals untouched",
 "Building a formula has no effect other than on the context it is given and returns the same formula for the same query, model and context state. It never writes to the query, its constants or preference, the model's nodes, or any package-level variable, and does not depend on map order, time, randomness or the environment; so contexts can be used independently of one another.",
 ["inputs","programs","schedules"],"all queries, models and contexts, including contexts used concurrently",
 "Tests neither repeat an encoding nor look at inputs afterwards.",
 ["cnf/cnf.go",Q],[("absence of writes to inputs and globals and of order-dependent iteration","every function reachable from an Encoding")])
p("P31","Encoding always finishes after polynomially many steps",
 "Building the formula of an operator or predicate terminates on every decision tree, visits each sub-query once (once per model node under a guarded quantifier), and adds a number of clauses that is polynomial in the model's dimension and number of nodes.",
 ["inputs","programs"],"all queries and decision trees",
 "Tests run on trees of a few nodes, where exponential growth is invisible.",
 [Q],[("bounded loops and visited marks in the encoders","every Encoding"),("single encoding of each child",Q+"logop")])
p("P32","Instance and node helpers compute what they name",
 "The helpers on partial instances report fullness, the number of undefined features, equality of values, a rendering that distinguishes any two different instances of the same dimension, the all-undefined instance of a dimension, and whether all given constants have the model's dimension; a node is a leaf exactly when it lacks a child.",
 ["inputs"],"all instances and dimensions",
 "There are no tests for package query's helpers.",
 [Q+"instances.go",Q+"model.go"],[("IsFull, BotCount, EqualValue, AsString, AllBotConst, ValidateConstsDim",Q+"instances.go"),("Node.IsLeaf",Q+"model.go")])
p("P33","Optimum computation spends every solver call but the last on an improvement",
 "For a strict order, computing an optimum makes at most one solver call more than the longest sequence of values that have the property and each strictly precede the one before it. So the number of calls is polynomial in the dimension whenever such sequences are, as for the orders defined without guarded quantifiers.",
 ["inputs"],"all properties, strict orders, models and choices of the solver among the satisfying valuations",
 "The number of calls depends on the lengths of chains of improving instances and on the valuations the external solver picks; tests see the choices of one solver on a few instances.",
 ["compute/optimum.go"],[("improvement loop","compute.ComputeOptim")])
p("P34","A whole query is found satisfiable exactly if it is, with values that show it",
 "For every query composed of the library's operators, quantifiers and predicates and every model, a solver step succeeds exactly if the query is satisfiable by its definition (variables range over partial instances, guarded constants over the model's node instances), the values retrieved afterwards make its body true, and evaluating the query as an atom, after any other evaluations with the same context and solver, gives its truth value.",
 ["inputs","programs"],"all compositions of operators, quantifiers and predicates, variables and constants, and all decision trees",
 "Tests evaluate single operators on a few trees; interactions of quantifiers, negation, shared derived variables and several predicates in one formula are countless.",
 ["compute/solver.go","compute/boolcomb.go",Q+"logop",Q+"predicates",Q+"extensions",Q+"context.go"],[("composition of encodings in one context","logop.*.Encoding"),("solver step and value retrieval","compute.binSolver.Step, compute.binSolver.Values"),("atoms","compute.QDTFAtom.Sat")])
p("P35","Evaluations with separate contexts and solvers do not interfere",
 "Solver steps, value retrievals, atoms and optimum computations with contexts and solvers of their own give the results they give alone however they are interleaved, even if they share queries and models: nothing writes package-level variables, process-wide settings or shared inputs, and every file used is one that the evaluation itself created under a fresh name.",
 ["schedules","inputs"],"all interleavings of evaluations at their effects, all formulas",
 "Tests run one evaluation at a time; a clash needs a second one at a particular point of the first.",
 ["compute/solver.go","compute/optimum.go","compute/boolcomb.go","cnf/cnf.go",Q+"context.go"],[("formula files and solver processes","compute.binSolver.Step"),("per-solver output","compute.binSolver.Values"),("temporary file of a computation","compute.ComputeOptim")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
