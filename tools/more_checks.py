c("P18 P21",SUM+"of the context operations; operation histories over the extracted summaries are compared with a reference specification",
  "Histories are exhaustive up to a small length and sampled beyond; the reference specification is written from the documentation.")
c("P22","effect analysis over extracted summaries plus state-equivalence of a reset context with a new one",
  "State equivalence is decided on dirty contexts from a bounded family; effects on package-level state for all functions.")
c("P23 P24 P25 P26 P27 P28",SUM+"of the compute package over a model of files, processes and their failures; every path of the summary is classified",
  "External operations (files, solver process) are modelled; each may fail at each call site. Queries and solver answers come from a bounded family. The program and the solver are never run.")
c("P20",ENC+", pairwise in one context with shared naming functions","Pairs of components on bounded dimensions; naming functions are injective (symmetric where the documentation demands it).")
c("P29",SUM+"with index, nil and slice obligations; every kind of invalid input must end the summary in an error","The kinds of invalidity are enumerated exhaustively at bounded dimensions; models beyond those sizes follow the same summary but are not instantiated.")
c("P31",SUM+"of every Encoding, with size measured on growing families","Growth is decided on doubling families, not proved as a symbolic bound; termination on bounded trees.")
c("P32",SUM+"of the helpers, compared with their definitions","Exhaustive up to a bounded dimension.")
c("P33",SUM+"of ComputeOptim composed with the solver interface, the operators and the library's predicates; the solver calls of each composition are counted against the longest improving sequence",
  "Opaque and library-made properties and orders up to dimension 4; the solver is replaced by a decision procedure with several policies of choosing models. Nothing of the library is run.")
c("P34",SUM+"of the whole library, composed on queries generated at random and decided by a clause-learning procedure against the queries' definitions",
  "A bounded random family: up to three variables and two guarded quantifiers, dimensions 1 to 4. Nothing of the library is run.")
c("P35","type-resolved effect rules (package variables, process-wide state) and "+SUM.lstrip()+"of two evaluations, composed at every pair of effect positions over one model of the file system",
  "Interleavings with one preemption of each evaluation, over a bounded family of formulas and optimum instances; files and processes are modelled. Nothing is run.")
