"""The property table (source of properties.jsonl and MANIFEST.json)."""
R = "abcvoting/abcrules.py"
G, MP, OT = "abcvoting/abcrules_gurobi.py", "abcvoting/abcrules_mip.py", "abcvoting/abcrules_ortools.py"
PRF, PRO, SCO, MIS, OUT, FIO, GEN = ("abcvoting/preferences.py", "abcvoting/properties.py", "abcvoting/scores.py", "abcvoting/misc.py",
                                     "abcvoting/output.py", "abcvoting/fileio.py", "abcvoting/generate.py")


def m(*xs):
    return [dict(name=a, where=b) for a, b in xs]


ALLCONF = "every profile (any number of candidates and voters, any approval sets, any positive weights), every committee size from 1 to the number of candidates, every rule, algorithm and resolute setting"
SOUND = ("Sound over-approximation of all executions of the Python sources for symbolic numbers of candidates, voters and committee size; external libraries "
         "(solvers, numpy, networkx) are modelled by their contracts. ")

PROPS = [
    dict(id="P01", title="Winning committees have exactly the requested size",
         statement="Every committee returned by any rule with any of its algorithms is a CandidateSet of exactly committeesize distinct candidates, each one an integer candidate of the profile. "
                   "This holds on every path of every algorithm, including early termination, tie handling, completion phases and candidates that nobody approves.",
         over=["inputs", "configurations"], for_all=ALLCONF,
         why="Tests sample about a thousand small instances; the size must be right for every profile, including ones in which voters run out of money or no supporters are left.",
         files=[R, G, MP, OT, MIS], mech=m(("sorted_committees and CandidateSet construction at the end of each algorithm", R), ("cardinality constraints", G)),
         observe=["return value of compute()"],
         level=SOUND + "265 of 273 configurations are proved exact; for the others (resolute AV/SAV, irresolute reverse sequential PAV, the AV fallback of increment completion) only bounds are derived and only a definite or newly introduced wrong size is reported."),
    dict(id="P02", title="Resolute results have one committee, others respect max_num_of_committees",
         statement="With resolute=True a rule returns at most one committee (a one-element list). With resolute=False and max_num_of_committees=m it never returns more than m committees, for every rule, every algorithm and every m >= 1.",
         over=["inputs", "configurations"], for_all=ALLCONF + ", every max_num_of_committees >= 1",
         why="Tests use max_num_of_committees on a few instances with many ties; the limit must hold for every profile and algorithm, including multi-phase rules.",
         files=[R, G, MP, OT, MIS], mech=m(("per-algorithm early stop on max_num_of_committees", R), ("solver enumeration loops", G)),
         observe=["length of the list returned by compute()"],
         level=SOUND + "All 206 limited configurations are proved."),
    dict(id="P03", title="No committee is returned twice; lists of committees are sorted",
         statement="The list of winning committees never contains the same candidate set twice, whatever the order in which an algorithm finds them. Whenever more than one committee is returned, the list is in the canonical sorted order.",
         over=["inputs", "configurations"], for_all=ALLCONF + " (SAV/AV and branch-and-bound: sortedness only)",
         why="Duplicates arise only for particular tie patterns (the same set reached along several elimination orders), which sampled instances rarely contain.",
         files=[R, G, MP, OT, MIS], mech=m(("dictionaries keyed by sorted committees", R), ("sorted_committees", MIS), ("exclusion cuts in solver loops", G)),
         observe=["list returned by compute()"],
         level=SOUND + "Order is proved for all lists that can have two elements; uniqueness is decided through canonical keys, set-typed collections, enumerators without repetition and exclusion cuts."),
    dict(id="P04", title="Invalid computation parameters are rejected",
         statement="A computation with committeesize < 1 or larger than the number of candidates, with a profile without voters, with max_num_of_committees that is not None or a positive integer, or with max_num_of_committees together with resolute=True raises ValueError. "
                   "A resolute value that the rule does not support raises NotImplementedError. No such call ever returns committees.",
         over=["inputs", "configurations"], for_all="every rule (including the generic Thiele and separable entry points) and every value of the invalid parameter",
         why="Tests try a handful of invalid values for some rules; the guarantee is for all values and all rules, including ones registered dynamically.",
         files=[R], mech=m(("Rule.verify_compute_parameters", R)), observe=["compute()", "compute_*()"],
         level=SOUND + "Each class of invalid values is analysed as one symbolic interval."),
    dict(id="P05", title="Unknown identifiers are rejected; listed algorithms run what they name",
         statement="Unknown or malformed rule, algorithm, property and score-function identifiers raise their dedicated errors (unknown rule id, unknown algorithm, ValueError, unknown score function) and never return a result. "
                   "Every algorithm listed for a rule is usable, and it runs exactly the solver it names: gurobi, CBC or Gurobi through python-mip, OR-Tools, or no solver at all.",
         over=["inputs", "configurations"], for_all="a family of malformed identifiers; every rule id, listed algorithm and resolute value",
         why="Tests skip algorithms that are slow or known to be fragile and cannot see which backend produced a committee.",
         files=[R, SCO, PRO], mech=m(("Rule.__init__", R), ("algorithm dispatch in compute_* functions", R), ("get_marginal_scorefct", SCO)),
         observe=["exceptions of compute(), Rule(), check()", "solver library invoked"],
         level=SOUND + "The unknown identifiers are a fixed family of constants, not all strings."),
    dict(id="P06", title="Computations never modify their arguments",
         statement="Computing committees, checking properties, computing scores and printing leave the profile, its voters, their approval sets and weights, and any committee passed as an argument unchanged. Returned committees share no mutable object with the profile.",
         over=["inputs", "histories", "configurations"], for_all=ALLCONF + "; all property checks, score functions and printing functions",
         why="A mutation only shows in a later call on the same object; tests build a fresh profile for nearly every call.",
         files=[R, PRO, SCO, PRF, MIS], mech=m(("copies of approval sets and committees before modification", R)), observe=["argument objects after the call"],
         level=SOUND + "Every heap write is classified by the owner of the written object."),
    dict(id="P07", title="Calls leave no trace in module-level state",
         statement="Computing committees, checking properties, scoring and printing do not change module-level variables, class attributes, external libraries' settings or the seed of the random number generator, and no result is cached across calls for an object that can change later. "
                   "A call that temporarily changes the output verbosity restores it on every exit, including exceptions.",
         over=["inputs", "histories", "configurations"], for_all=ALLCONF + "; all property checks, score functions and printing functions",
         why="State leaks show only in sequences of calls; tests do not compare module state before and after.",
         files=[R, PRO, SCO, MIS, OUT], mech=m(("try/finally around the verbosity change in full_analysis", PRO)), observe=["output.verbosity", "module variables"],
         level=SOUND + "Effects of external library calls are modelled."),
    dict(id="P08", title="Results do not depend on the verbosity level",
         statement="Winning committees, property verdicts and scores are the same at every output verbosity level, and the verbosity level never decides whether a call raises an exception.",
         over=["configurations", "inputs"], for_all="every verbosity level; " + ALLCONF,
         why="Tests run at one or two verbosity levels.",
         files=[R, PRO, SCO, OUT], mech=m(("Output methods return nothing", OUT)), observe=["results of compute() and check()"],
         level=SOUND + "Information-flow argument, independent of values."),
    dict(id="P09", title="Results are deterministic",
         statement="Apart from the random serial dictator rule, a call with equal arguments always gives the equal result: no random numbers, time, environment variables, object identities or string hashes influence committees, verdicts or scores.",
         over=["histories", "inputs", "configurations"], for_all=ALLCONF + "; all property checks, score functions",
         why="A hash- or randomness-dependent choice shows only across interpreter runs, and only for tied inputs.",
         files=[R, PRO, SCO, MIS], mech=m(("lexicographic tie-breaking on candidate numbers", R)), observe=["results of repeated calls"],
         level=SOUND + "Integer sets are assumed to iterate reproducibly (CPython)."),
    dict(id="P10", title="Exact algorithms compare exact numbers",
         statement="Algorithms that do not use a solver and are not the float variant (fraction variants, standard, brute-force, branch-and-bound), the brute-force property checks and the score functions take every comparison, minimum, maximum and sort on exact numbers (integers and fractions), never on floating-point values.",
         over=["inputs", "configurations"], for_all="every profile with integer or Fraction weights, every such algorithm",
         why="A rounding error changes a winner only for rare near-ties with large numbers, which sampled tests do not contain.",
         files=[R, PRO, SCO], mech=m(("Fraction/mpq division selected by the algorithm name", R), ("Fraction-valued score functions", SCO)), observe=["committees for tied candidates"],
         level=SOUND + "Known finding: SAV sums float quotients (the recorded test results depend on it)."),
    dict(id="P11", title="Floating-point values are compared with a tolerance",
         statement="Algorithms that work with floats (float-fractions and the MIP solvers) and solver-based property checks never test two floating-point values for exact equality, and order them only with an explicit tolerance or next to an approximate-equality test.",
         over=["inputs", "configurations"], for_all="every profile, every float-fractions/gurobi/mip algorithm, every solver-based property check",
         why="Exact float comparison is wrong only for particular rational values; tests with other values pass.",
         files=[R, G, MP, PRO, MIS], mech=m(("misc.isclose", MIS), ("CMP_ACCURACY", G)), observe=["ties in float-fractions results"],
         level="Decides the form of every float comparison, not the adequacy of the tolerance. " + SOUND),
    dict(id="P12", title="Only the ratios of voter weights matter",
         statement="Multiplying all voter weights by the same positive factor changes neither winning committees nor property verdicts (with default quota): budgets, loads, quotas, scores, bounds and sentinels all scale with the weights, and no weight-dependent quantity is compared with or added to an absolute constant.",
         over=["inputs", "configurations"], for_all=ALLCONF + "; all property checks with default quota",
         why="Almost all test profiles have unit weights, for which counting voters and adding weights coincide.",
         files=[R, G, MP, OT, PRO, SCO], mech=m(("homogeneous budget and quota computations", R)), observe=["compute() for a profile and its scaled copy"],
         level=SOUND + "Dimension analysis: violations are sums or comparisons of quantities with definitely different weight exponents."),
    dict(id="P13", title="Voter weights are used or refused, never silently ignored",
         statement="Every rule, score and property check whose definition depends on voter weights consults the weights on every computation, in every algorithm. Rules that are defined for unit weights only (Monroe, greedy Monroe, lexicographic minimax AV, random serial dictator) raise an error for profiles with other weights.",
         over=["inputs", "configurations"], for_all="every profile with non-unit weights; every rule (except the weight-independent minimax AV and trivial rule), algorithm and property check except Pareto optimality",
         why="Tests with weighted profiles exist for a few rules and algorithms only.",
         files=[R, G, MP, OT, PRO, SCO, PRF], mech=m(("Voter.weight in scores, loads, budgets and model objectives", R), ("has_unit_weights guards", R)), observe=["results for weighted profiles"],
         level="Proves that weights are consulted (information flow) and that unit-weight rules refuse weights >= 2; correct use is covered by P12 only in part. " + SOUND),
    dict(id="P14", title="Solver answers are believed only as far as their status allows",
         statement="Every algorithm and property check that calls a solver (Gurobi, python-mip, OR-Tools) reads the solution only after the solver reported an optimal solution; a time limit, an error or any other status never turns into a committee, an empty result or a verdict. "
                   "If the first solve of a rule finds no solution, the computation raises RuntimeError instead of returning an empty list; an irresolute computation without a limit ends only once the solver reports that no further committee exists. "
                   "Property verdicts follow from the status in the right direction, and models are solved to a relative gap small enough (at most 1e-5, or the solver's default) to tell different scores apart.",
         over=["inputs", "configurations", "fault_sequences"], for_all="every rule and property check with a solver-based algorithm, every status the solver can report",
         why="Tests see only the statuses that tiny models produce (optimal and infeasible); time-outs, numerical trouble and interrupted solves never occur in them.",
         files=[G, MP, OT, PRO], mech=m(("status checks after optimize()/Solve()", G), ("status checks", MP), ("status checks", OT), ("model.Status tests", PRO)),
         observe=["exceptions and return values of compute() and check()"],
         level=SOUND + "Typestate over solver models; every status constant of the solvers is enumerated. Gap and exhaustiveness rules read the options set on the model."),
    dict(id="P15", title="Profiles refuse invalid contents and copies share nothing",
         statement="Profiles, voters and candidate sets refuse candidates that are negative, not integers, duplicated or not below num_cand, weights <= 0, num_cand <= 0 and too short lists of candidate names, wherever in the input the invalid item is and through every way of adding or replacing voters; "
                   "convert_to_unit_weights refuses non-integer weights. Valid contents are stored exactly: number of voters and candidates, candidate names, approval sets and weights. "
                   "A profile shares no mutable object with its inputs, and a copy (copy(), copy.copy, copy.deepcopy) has the same contents and shares nothing with the original.",
         over=["inputs", "histories"], for_all="every num_cand, number of voters, approval set, positive weight and list of names; each class of invalid content",
         why="Tests try a few invalid lists on a few methods; sharing only shows when an object is modified afterwards.",
         files=[PRF, MIS], mech=m(("CandidateSet.__init__, Voter.__init__", MIS), ("Profile._unique_voter, copy, convert_to_*", PRF)), observe=["Profile, Voter and CandidateSet objects"],
         level=SOUND + "Invalid contents are analysed as symbolic values at the first and last position of an approval list."),
    dict(id="P16", title="Files are written and read back exactly, malformed ones refused",
         statement="Profiles written to abcvoting YAML files (with or without committee size, weights and compute instances) are read back with the same number of candidates and voters, approval sets, weights, committee size and instances, and can be written again; profiles written to Preflib files are read back with the same names, voters and integer weights. "
                   "Malformed files raise MalformattedFileException, invalid arguments and contents raise ValueError, wherever in the file the mistake is. Writing does not change its arguments, and no file stays open however the call ends.",
         over=["inputs", "histories"], for_all="every profile, positive number of candidates, weight and committee size; each class of malformed file and invalid argument; failing input and output",
         why="Tests read a few fixed files and compare a few profiles; wrong data silently change every result computed from them.",
         files=[FIO, PRF], mech=m(("read_/write_abcvoting_* and read_/write_*preflib*", FIO)), observe=["profiles and instances returned by the readers, exceptions"],
         level=SOUND + "ruamel.yaml and preflibtools are represented by contract stubs (a load returns what was dumped); that they keep this contract is assumed."),
    dict(id="P17", title="Random profiles are generated with the requested parameters",
         statement="Every profile generator, called directly or through random_profile with the same id, uses the distribution it documents with exactly the given parameters and returns a profile with exactly num_voters voters and num_cand candidates whose approval sets are the generated ballots (of exactly setsize candidates for the fixed-size distributions); "
                   "point distributions pass center point, width and sigma on, given points are used as given, and the points returned are those the profile is based on. A missing id raises KeyError; unknown ids, distances and point distributions and center points of a wrong dimension raise ValueError. The specification of the distribution is not modified.",
         over=["inputs", "configurations"], for_all="every number of voters and candidates, setsize and parameter value; every distribution id, point distribution and combination of given points",
         why="Tests generate a few random profiles of one size; a wrong parameter or rounding only changes the distribution or single ballots.",
         files=[GEN, PRF], mech=m(("random_profile, random_*_profile, prefsampling_*wrapper, PointProbabilityDistribution", GEN)), observe=["profiles returned by the generators, exceptions"],
         level=SOUND + "prefsampling is represented by contract stubs; that its samplers follow their distributions is not decided."),
]

NA = [
    dict(id="P80", title="Optimisation rules return exactly the optimal committees",
         statement="For optimisation-based rules every returned committee maximises (minimises) the rule's score, and without a limit all optimal committees are returned.",
         over=["inputs"], for_all="every profile", why="Optimality quantifies over all committees of every profile.",
         files=[R, G, MP, OT], mech=m(("solver models", G)),
         reason="Optimality of a committee depends on the numeric contents of the profile and on external MILP solvers; no static argument over the source in reach can relate a model to the mathematical definition of the score."),
    dict(id="P81", title="All algorithms of a rule agree",
         statement="Different algorithms for the same rule return the same set of winning committees.",
         over=["inputs", "configurations"], for_all="every profile and pair of algorithms", why="Agreement is only sampled.",
         files=[R, G, MP, OT], mech=m(("independent implementations", R)),
         reason="Equivalence of a branch-and-bound search, a MILP model and a brute-force enumeration is a relational functional property of runtime values; static analysis cannot decide it."),
    dict(id="P82", title="Property checkers decide the textbook definitions",
         statement="Each property check returns True exactly if the committee satisfies the published definition of the axiom.",
         over=["inputs"], for_all="every profile and committee", why="Only small instances are cross-checked.",
         files=[PRO], mech=m(("brute-force and gurobi checkers", PRO)),
         reason="Correctness of the enumeration/MILP encodings against the axioms quantifies over groups of voters and utility values; not a structural property of the source."),
    dict(id="P83", title="Rules satisfy their proportionality axioms",
         statement="PAV, equal shares, Phragmen rules and the others satisfy the axioms proved for them in the literature (EJR, PJR, JR, priceability).",
         over=["inputs"], for_all="every profile", why="Only sampled.",
         files=[R], mech=m(("rule implementations", R)),
         reason="Needs a proof of the voting-theoretic theorem for the implementation; outside any static analysis."),
    dict(id="P84", title="Random profiles follow the documented distributions",
         statement="Profile generators sample from the probability distributions they document.",
         over=["histories"], for_all="every parameter", why="Distributions cannot be settled by finitely many samples.",
         files=[GEN], mech=m(("prefsampling wrappers", GEN)),
         reason="A statement about probabilities, produced by an external sampling package."),
]
