"""One entry per property: what properties.jsonl and MANIFEST.json are written from."""
S = "src/"
SSA = "rule over SSA form of the whole program: "
KER = "dataflow summarisation of each function to closed-form expressions (value numbering with loop-recurrence recognition over SSA form), compared with the specified expression by normal forms; random interpretation of the two normal forms before a mismatch is reported"
KNOTE = "Each named function is summarised (helpers inlined) to what it returns, writes and calls, as expressions over its inputs; the rule compares these with the specification. A construct the summariser cannot express is counted as undecided, never reported."
PROPS = [
 dict(id="B01", title="No input text overruns a fixed-size text buffer",
  statement="No option value, file name, configuration line, policy-graph line, command or model token, however long, is copied, formatted or scanned past the end of a fixed-size text buffer. Text too long for its place is shortened or rejected.",
  over=["inputs", "configurations"], all="every length of every text the programs accept: options, configuration files, file names, interactive commands, policy graph files",
  why="The tests use short names and files; overruns need text longer than a buffer and often show no effect without memory instrumentation.",
  files=["src/command-line.c", "src/config-file.c", "src/program-options.c", "src/pomdp-solve-options.c", "src/pomdp-solve.c", "src/pg.c", "src/belief.c", "src/pomdp-tools-main.c", "src/pomdp-fg-main.c", "src/stats.c"],
  mech=[("bounded copies of option text", "src/command-line.c"), ("bounded reading of attribute and value", "src/config-file.c"), ("scan field widths", "src/pg.c, src/pomdp-tools-main.c"), ("file name assembly", "src/pomdp-solve.c")],
  observe=["memory safety of a run with over-long text"],
  technique=SSA + "greatest text length per buffer vs. its size; scan widths; guarded stores at a running position",
  note="Every strcpy/strcat/sprintf/strncpy/fgets/memcpy into storage of known size, every %s/%[ conversion, every character store at a running position. Lengths are propagated interprocedurally; sites whose storage size is a run-time quantity are listed as undecided and not judged."),
 dict(id="B02", title="Scanned values are used only after a successful conversion",
  statement="When a number, word or character read from a file, an option or the user's input cannot be converted, the program notices and does not go on to use the storage as if it had been filled in, and it does not retry the same failing conversion for ever at end of input.",
  over=["inputs"], all="every file, option value and interactive input, including truncated and malformed ones",
  why="The tests feed well-formed files only; a failed conversion leaves an old or indeterminate value that often looks plausible.",
  files=["src/alpha.c", "src/pg.c", "src/belief.c", "src/pomdp-tools-main.c", "src/random.c", "src/pomdp-solve.c", "src/program-options.c"],
  mech=[("check of the count returned by the scanf family", "alpha.c readAlphaList; pg.c PG_read; pomdp-tools-main.c; random.c"), ("end pointer checks", "program-options.c, random.c")],
  observe=["program rejects malformed files instead of continuing"],
  technique=SSA + "path search from each scanf-family/strto call to uses of its targets on edges where success is not implied",
  note="Judges each call of the scanf family and of strtol/strtod. It does not judge what the program then does with a value that was converted correctly (B03, B07)."),
 dict(id="B06", title="Every opened file is checked, closed once and not used afterwards",
  statement="A file the programs open is tested for a failed open before it is read or written, is closed on every way out of the operation that opened it (the error ways included), and is never used or closed again after that.",
  over=["inputs", "fault_sequences"], all="every file name, every failing open and every early exit of the readers and writers of models, vectors, policy graphs, beliefs and configuration files",
  why="Tests only open files that exist and finish the happy path; a lost or doubly closed stream shows nothing there, and unflushed output is lost only on particular ways out.",
  files=["src/alpha.c", "src/pg.c", "src/belief.c", "src/mdp/mdp.c", "src/config-file.c", "src/pomdp-solve.c", "src/fg-params.c"],
  mech=[("open check with message", "each fopen"), ("fclose before each return", "readers and writers")],
  observe=["open descriptors and written files"],
  technique=SSA + "typestate of stream handles over all feasible paths with owner summaries of called functions",
  note="Streams handed to a caller or kept in a structure are followed through summaries; streams kept in globals for the life of the program are exempt by name with a reason."),
 dict(id="D01", title="Working memory is released on every path",
  statement="Memory that an operation obtains for itself is released on every way out of it, early exits included, and everything stored in a structure is released by the code that disposes of that structure; repeated operations therefore do not grow the process.",
  over=["inputs", "histories"], all="every path through every function of the three programs, every allocation site, every owning field",
  why="Tests never look at memory; leaks on early exits need particular inputs and only show after long runs.",
  files=["src/alpha.c", "src/belief.c", "src/pg.c", "src/pg-eval.c", "src/inc-prune.c", "src/parsimonious.c", "src/region.c", "src/witness.c", "src/two-pass.c", "src/finite-grid.c", "src/mdp/sparse-matrix.c", "src/mdp/imm-reward.c", "src/mdp/mdp.c"],
  mech=[("destructor of each structure", "*_destruct, destroy*, free*"), ("release before each return", "each function")],
  observe=["heap growth"],
  technique=SSA + "path-sensitive ownership analysis (fresh/free/keep summaries per function), plus acquire/release matching per field",
  note="Path rule over every call that returns a fresh block; field rule over every field or global given one. Links of lists and five named slots are exempt, each with its reason in the check."),
 dict(id="D02", title="Released memory is never used or released again",
  statement="After a vector, list, matrix, policy graph, node or buffer has been released, no operation on any path reads it, writes it or releases it a second time.",
  over=["inputs", "histories"], all="every path through every function of the three programs after each release",
  why="A use after release usually still works in a test run, and double releases sit on error paths the tests do not take.",
  files=["src/alpha.c", "src/cross-sum.c", "src/inc-prune.c", "src/parsimonious.c", "src/belief.c", "src/pg.c", "src/pomdp-tools-main.c", "src/mdp/sparse-matrix.c", "src/laspack/errhandl.c"],
  mech=[("ownership hand-over conventions of the list operations", "src/alpha.c"), ("caller releases what it read", "src/pomdp-tools-main.c")],
  observe=["memory safety"],
  technique=SSA + "path-sensitive typestate of released pointers and locations with function summaries",
  note="Tracks the released pointer value and the location it was loaded from until that is overwritten. Aliases reached through another list are not tracked."),

 dict(id="A01", title="Projected vectors are the exact one-step backup of the old value function",
  statement="For every action and observation, projecting a set of vectors gives for each vector the new vector with component i equal to discount times the sum over successor states j of P(j|i,a) * R(z|j,a) * old(j), plus the immediate reward of i and a divided by the number of observations; it is labelled with its action, its observation and the vector it came from. An observation that can never occur under an action gives the one vector holding the reward share. The table of projections is filled for every action and observation with the projection for exactly that pair.",
  over=["inputs"], all="every model (states, actions, observations, probabilities, rewards, discount) and every previous value function",
  why="A wrong index, factor or missing term changes values only for models that are not symmetric in the right way; the tests compare a few tiny models to a tolerance.",
  files=["src/projection.c", "src/alpha.c"],
  mech=[("projection of a vector, of a list, of all", "projection.c: projectOneAlphaVector, projectList, makeAllProjections, setUpAllProjections")],
  observe=["projected vector lists"],
  technique=KER, note=KNOTE + " Exactness is over the reals: rounding is not judged."),
 dict(id="A02", title="Backed-up vectors carry the right values, actions and choice links",
  statement="A vector made by the backup at a belief is the sum over observations of the best projected vector at that belief, with the action of its set and the choice made for each observation recorded under that observation. A neighbour of a vector replaces the choice of exactly one observation. A cross sum holds, for every pair from its two sets, their componentwise sum with the action of the first and the choices of both. Complete enumeration crosses the projections of all observations for each action and unites the actions. New and copied vector nodes hold the given contents and action and no stale links.",
  over=["inputs"], all="every model and every set of projected vectors, for every solution method that forms sums of projections",
  why="Wrong links or labels leave the values right, so value comparisons pass while the policy graph is wrong; wrong sums need particular models to show.",
  files=["src/alpha.c", "src/cross-sum.c", "src/common.c", "src/enumeration.c", "src/neighbor.c", "src/zlz_speedup.c"],
  mech=[("cross sum", "cross-sum.c: crossSum, setAlphaListSources"), ("backup at a point", "common.c: bestAlphaForBeliefQ, makeAlphaVector, addVectorAtBeliefQ, initWithSimplexCornersQ"), ("neighbours", "neighbor.c"), ("enumeration", "enumeration.c"), ("vector nodes", "alpha.c")],
  observe=["vector lists and their obs_source arrays"],
  technique=KER, note=KNOTE),
 dict(id="A03", title="Belief updates are Bayes' rule and simulated trajectories follow the model",
  statement="The belief after an action and an observation is the joint probability of successor state and observation divided by the probability of the observation; an observation of probability zero is reported as impossible and the result of a failed update is never used as a belief. Observations are drawn with their probability under the current belief and action, the update that follows uses exactly the belief, action and observation drawn, and each simulated step takes the policy's action for its belief (or a random action of the model). Actions and observations typed in are checked against the model before use; every line typed that does not end the dialogue is answered with the new belief or, with a word on what is wrong, the empty list. Generated grid points are simplex corners, midpoints of two corners or beliefs reached by updates.",
  over=["inputs", "histories"], all="every model, belief, action, observation and random draw; every sequence of updates",
  why="Tests do not exercise simulation; wrong indices or a skipped normalisation show only for particular models, and impossible observations are never tried.",
  files=["src/mdp/mdp.c", "src/sim.c", "src/finite-grid.c", "src/utils.c"],
  mech=[("belief update", "mdp/mdp.c: transformBeliefState"), ("drawing an observation and stepping", "sim.c: getBeliefObservation, updateBeliefState"), ("trajectories", "sim.c: generateTrajectory"), ("interactive updates", "utils.c: UTIL_doBeliefUpdates")],
  observe=["belief arrays, trajectories"],
  technique=KER, note=KNOTE + " Judges the formulas and the use of the results, not the statistical quality of the generator."),
 dict(id="A05", title="Best vectors, comparisons and domination pruning are what they claim",
  statement="The value of a belief is the largest product of the belief with a vector of the list, and the vector returned is one that attains it, ties going to the lexicographically greater vector. Two vectors are equal exactly when all components agree within the tolerance; lexicographic order is decided by the first differing component; a vector is dominated exactly when another one is better in every state. Searching a list finds a vector exactly when an equal one is in it, and domination pruning removes exactly the marked vectors.",
  over=["inputs"], all="every list of vectors, every belief, every pair of vectors, all tie and near-tie situations",
  why="Ties, near-equal components and last-element cases are rare in the test models but decide which vectors survive.",
  files=["src/alpha.c", "src/belief.c", "src/region.c"],
  mech=[("best vector", "alpha.c: bestVector, bestVectorValue"), ("comparisons", "alpha.c: sameAlpha, isLexicographicallyBetterAlpha, isDominatedVector"), ("search and pruning", "alpha.c: findAlphaVector, queryAlphaList, markDominatedAlphaList, removeMarkedAlphaList, dominationCheck")],
  observe=["results of the comparisons, surviving vectors"],
  technique=KER, note=KNOTE),
 dict(id="A04", title="Model rewards are read, overridden and averaged as specified",
  statement="A reward given for a situation (single value, row or matrix, wildcards included) is recorded for exactly the actions, states and observations it names; a later specification, zero entries included, replaces earlier ones wherever both match; situations without a specification have reward zero. The immediate reward of a state and action is the expectation of these rewards over successor states and observations, negated where a cost model is solved; the smallest reward kept with the model is that of the rewards as used. An observation counts as possible for an action exactly when a reachable state can produce it.",
  over=["inputs"], all="every sequence of reward specifications in a model file, every POMDP and MDP, reward and cost models",
  why="Overriding, wildcards and matrix forms interact; a wrong default or index only shows for particular orders of specification that the tests do not contain.",
  files=["src/mdp/imm-reward.c", "src/mdp/decision-tree.c", "src/mdp/mdp.c", "src/pomdp.c", "src/alpha.c"],
  mech=[("entering rewards", "mdp/imm-reward.c: newImmReward, enterImmReward, doneImmReward, irAddToDecisionTree"), ("reward tree", "mdp/decision-tree.c: dtAdd, dtAddInternal, dtGet"), ("expected rewards", "mdp/mdp.c: computeRewards"), ("adjusted rewards, possible observations", "pomdp.c: getAdjustedReward, setPossibleObservations")],
  observe=["reward vectors of a one-step solution"],
  technique=KER, note=KNOTE + " The recursion of the reward tree is judged one level at a time (what each call does to its node, its default and its entries)."),
 dict(id="B03", title="Model files mean what the format says, and wrong ones are rejected",
  statement="Each specification of a model file (T, O, R, start; single value, row, matrix; uniform, identity, reset; names, numbers and wildcards) sets exactly the probabilities, rewards and start belief it names, later ones replacing earlier ones. A name stands for its position in its declaration. Too few or too many values, probabilities outside [0,1], unknown or repeated names, numbers out of range, impossible start states, rows that do not sum to one and missing parts are reported, and a model with any such error is rejected.",
  over=["inputs"], all="every model file: all orders of specifications, all wildcard combinations, all MDP and POMDP forms, all sizes",
  why="The test models use few of the forms; a wrong index, default or missed error in another form shows only with models that use it.",
  files=["src/mdp/parser.y", "src/mdp/parser.c", "src/mdp/parse_hash.c", "src/mdp/parse_err.c", "src/mdp/mdp.c"],
  mech=[("grammar actions", "mdp/parser.y, parser.c"), ("contexts and values", "parser.y: setMatrixContext, enterMatrix, enterUniformMatrix, enterIdentityMatrix, enterResetMatrix, setStartStates, endStartStates"), ("names", "mdp/parse_hash.c"), ("errors", "mdp/parse_err.c: ERR_enter, ERR_dump; parser.y: checkMatrix, checkProbs")],
  observe=["the model as used by the solver, exit status of reading a model"],
  technique=KER, note=KNOTE + " The actions of the grammar are taken apart by production (from the grammar file and the generated parser) and each is summarised as a function of the values of its symbols; the scanner's token rules are not judged here."),
 dict(id="A10", title="Sparse matrices hold exactly the entries given",
  statement="After any sequence of entries, replacements, accumulations and removals (a zero entry), a row of a model matrix holds exactly the last value of each column, in column order, with its count; the compressed matrix used by the solver holds the same entries row by row, absent ones reading as zero; row sums and counts are over exactly these entries. The transition, observation and reward matrices of each action are the compressed form of those read for it.",
  over=["inputs", "histories"], all="every sequence of entries in every order of columns, all sizes and all sparsity patterns",
  why="Model files in the tests enter each row once, in column order; replacing, removing, entering out of order and empty rows are what breaks lists and offsets.",
  files=["src/mdp/sparse-matrix.c", "src/mdp/mdp.c"],
  mech=[("rows as sorted lists", "mdp/sparse-matrix.c: addEntryToRow, removeRowNode, addEntryToIMatrix, accumulateEntryInIMatrix"), ("compressed form", "mdp/sparse-matrix.c: transformIMatrix, getEntryMatrix, sumRowValues"), ("conversion of the model", "mdp/mdp.c: convertMatrices")],
  observe=["matrix contents"],
  technique=KER, note=KNOTE + " Rows are taken to be sorted by column when an operation begins (each operation is shown to keep them so)."),
 dict(id="A06", title="Policy graphs are built, written, read and evaluated faithfully",
  statement="The policy graph of a value function has, for its n-th vector, that vector's action and per observation the id of the vector chosen for it (marks where the observation is impossible or the choice unknown); vectors are numbered in list order. Writing and reading a graph keep all of it; graphs with bad actions, ids or links are refused; relinking maps exactly the links. Evaluating a graph solves, for every state and node, value = immediate reward + discounted expected value of the nodes it leads to, and the value of a belief is the largest over the nodes, with the node that attains it.",
  over=["inputs"], all="every list of vectors, every policy graph file, every model, all numbers of nodes, states and observations",
  why="The tests never write, read back or evaluate a policy graph; a swapped index or lost mark gives a graph that looks plausible.",
  files=["src/pg.c", "src/pg-eval.c", "src/alpha.c"],
  mech=[("graphs from vectors", "pg.c: PG_ConstructorFromAlphaList; alpha.c: appendNodeToAlphaList"), ("text form", "pg.c: PG_printf, LPG_scanf, LPG_verify, PG_convertLPGToPG, PG_relink"), ("equations", "pg-eval.c: PGE_setRowCoefs, PGE_setPGCoefs, PGE_evaluate, PGEC_val")],
  observe=["policy graph files", "output of pomdp-tools pg_eval"],
  technique=KER, note=KNOTE + " That the iterative solver converges to the solution of the equations is not judged."),
 dict(id="A07", title="The linear programs are the ones specified, and their answers the solver's",
  statement="For every vector and list, the region linear program maximises delta subject to: belief entries between 0 and 1 summing to one, the value variable equal to the belief times the vector, and for every vector of the list belief times that vector plus delta at most the value; for every neighbor, the two-pass linear program has for every observation each other projected vector at most the one its source was made of. The solver receives exactly these rows, right-hand sides, senses, bounds and objective; its objective value and solution are read back for the same variables; only a solver result 'optimal' counts as solved. A vector is given a region exactly when the list is empty or the program is solved with both delta and objective at least epsilon, and the witness and difference returned are that solution. Each linear program is sized to hold its coefficients and is released once.",
  over=["inputs"], all="every vector, list, projection, sparsity pattern and solver answer",
  why="The tests compare final vector sets of one model; a wrong coefficient, bound, sense or index shows only for lists, sparsity patterns or solver answers that the sample does not produce, and then as a slightly wrong set of vectors.",
  files=["src/region.c", "src/two-pass.c", "src/lp-interface.c"],
  mech=[("region program", "region.c: setUpRegionLP, setUpRegionConstraintsNew, setUpObjectiveFunction, findRegionPoint"), ("two-pass program", "two-pass.c: setUpTwoPassLp, setUpTwoPassLpConstraints, feasibleTwoPassLp"), ("solver interface", "lp-interface.c: LP_newLP, LP_loadLpSolveLP, LP_extractLpSolveSolution, LP_solveLP")],
  observe=["results of findRegionPoint and feasibleTwoPassLp"],
  technique=KER, note=KNOTE + " The linear program a function builds is compared as a dense matrix, so layout and order of the coefficients do not matter. The solver itself (src/lp-solve) is not judged."),
 dict(id="A11", title="List operations keep exactly the vectors they should",
  statement="Every operation on a list of vectors leaves a well-formed list (links, first, last and count agree) with exactly the vectors it should have: appending and prepending put the one vector at its end, numbered on from its neighbour; taking out the first, a given, a found, the best or an unmarked vector removes exactly it, and nothing when there is none; a union holds all vectors of both and releases only the second header; the marked vectors are split off in order and unmarked again; sorting only rearranges the vectors, by lexicographic order; two lists are equal when their vectors are, in order. A duplicated node or list has its own copy of every vector (nodes: of witness and choices too) and the marks, ids and sources of the original. Clearing and destroying release every node, vector, witness and choice array exactly once.",
  over=["inputs"], all="every list, element, mark pattern and order of operations",
  why="A list that loses its last link, its count or a vector only in one shape (one element, last element, two adjacent marked ones) passes the four sample runs unless exactly that shape arises in them.",
  files=["src/alpha.c"],
  mech=[("lists", "alpha.c: appendNodeToAlphaList, prependNodeToAlphaList, dequeueAlphaNode, extractAlphaNode, unionTwoAlphaLists"), ("marks", "alpha.c: extractMarkedAlphaList, removeMarkedAlphaList, removeDominatedAlphaList"), ("copies", "alpha.c: duplicateAlphaNode, copyAlphaList, duplicateAlphaListWithWitnesses"), ("order", "alpha.c: sortAlphaList, quicksortAlphaList, sameAlphaList")],
  observe=["vectors, order and ids of solution files and intermediate lists"],
  technique=KER, note=KNOTE + " Loops without a closed form are judged by their transfer function: one iteration from an arbitrary state that satisfies the invariant must re-establish it. Recursion of the sort and termination are not judged."),
 dict(id="A08", title="Pruning and exact methods keep exactly the vectors that are needed",
  statement="Pruning drops a vector only when the region search finds no point where it beats those kept so far; when it finds one, the vector best there is kept. Epsilon pruning drops one only when no old vector beats what remains by more than the tolerance. Each list is purged in the way asked for. Witness and two-pass searches start from the vectors at all corners (and the random points asked for), try every neighbour of every vector exactly while it is untried, and add the vector at each witness point with its neighbours; incremental pruning crosses in every observation's projection once and compares each candidate with a set sufficient to prove it useless; enumeration takes all cross sums before purging. No vector is lost, released twice or left unprocessed in any of these rounds.",
  over=["inputs"], all="every set of vectors, projection, option setting and outcome of the region searches",
  why="Dropping a vector that is needed, or ending a search one neighbour early, changes the value function only in a small region and for some shapes of sets; the four sample problems are solved the same with many such changes.",
  files=["src/parsimonious.c", "src/witness.c", "src/two-pass.c", "src/inc-prune.c", "src/enumeration.c", "src/common.c"],
  mech=[("prune", "parsimonious.c: normalPrune, epsilonPrune, isEpsilonApproximation, markBestAt..., dominationCheck, purgeAlphaList, purgeProjections"), ("searches", "witness.c: improveWitness; two-pass.c: improveTwoPass, searchRegionTwoPass; common.c: initListSimpleQ"), ("cross sums", "inc-prune.c: generalizedIpCrossSum, getGenIpCompareList, addSimpleSumIp, improveIncPrune; enumeration.c: improveEnumeration")],
  observe=["vectors of solution files for every -method and purge option"],
  technique=KER, note=KNOTE + " The searches are work lists without a closed form: one round is judged from an arbitrary state (calls, their conditions and order, fields changed, how the loop goes on). The region search itself is property A06/A07's; termination is not judged."),
 dict(id="A09", title="Each epoch's error is the one defined, and iteration stops on it as asked",
  statement="The error measured between two successive value functions is that of the method or stopping rule chosen: the largest gain of a vector of either set over the other, found by the region search (the old set is searched too unless values can only grow); the largest distance of a new vector to its nearest old one; whether the sorted sets are the same; or, on a grid, the largest change of value at its points; iteration stops exactly when it is at most the stopping tolerance times (1-discount)/(2 discount). The variation that adapts its tolerance starts from the tolerance asked for, records the one in use every epoch, and makes it finer by the factor only while it is coarser than the final one and the solution sizes of the last epochs stayed within the window; changing it changes every tolerance derived from it. The speed-up between epochs replaces the value at each witness point only by one at least as good, repeats until no point gains more than its tolerance, and drops only vectors that are dominated or not needed.",
  over=["inputs", "histories"], all="every pair of value functions, discount, tolerance, criterion, variation and history of epochs",
  why="The tests stop after a fixed number of epochs; an error that is too small ends iteration early with a worse policy, and no test compares it with the definition.",
  files=["src/common.c", "src/pomdp-solve.c", "src/finite-grid.c", "src/zlz_speedup.c"],
  mech=[("errors", "common.c: bellmanError; pomdp-solve.c: weakBound, meetStopCriteria; finite-grid.c: FG_computeError"), ("tolerance", "pomdp-solve.c: getSolvePrecision, setSolvePrecision, startViEpoch, doAdjustableEpsilonVariation, endViEpoch"), ("speed-up", "zlz_speedup.c: ZLZ_ViSpeedup, ZLZ_improve, ZLZ_backup, ZLZ_stop, ZLZ_pruneSpecial")],
  observe=["epochs, errors and solution sizes reported on standard output, with -stop_criteria, -stop_delta, -vi_variation"],
  technique=KER, note=KNOTE + " That iteration ever meets the criterion (convergence) is not judged; the region search is A06/A07's. The fixed-solution-size variation is not implemented in the program."),
 dict(id="A13", title="Options are read, checked, defaulted and passed on as documented",
  statement="Every word of a command line is taken as flag, option with value or argument; every line of a configuration file is read as attribute = value with comments, and malformed lines make the run fail; the command line overrides the file. Each documented option is found by its name, converted, checked against its documented range or values (anything else, and any unknown option, is an error), and sets its own setting, which otherwise has its documented default. Each setting reaches the parameter of the algorithm it stands for, and the report shows it.",
  over=["inputs"], all="every command line, configuration file, option and value",
  why="There are over fifty options with their own names, ranges, value lists and defaults; the tests use a handful of them, and a swapped field, bound, value number or default only changes how a run is carried out.",
  files=["src/command-line.c", "src/config-file.c", "src/associative-array.c", "src/program-options.c", "src/pomdp-solve-options.c", "src/pomdp-tools-options.c", "src/params.c"],
  mech=[("reading", "command-line.c: CL_parseCommandLine, CL_addFlag, CL_addArgOption; config-file.c: CF_fscanf; associative-array.c: AA_put, AA_get"), ("checking", "program-options.c: PO_create, PO_getStringOption, PO_getEnumOption, PO_getIntegerOption, PO_getDoubleOption, PO_endValidate"), ("table", "pomdp-solve-options.c and pomdp-tools-options.c: ..._parse, ..._new, ..._toConfigFile"), ("passing on", "params.c: doPostOptionParseActions, tempOptsToParamConversion, enforceSmallestPrecision")],
  observe=["exit status and messages for wrong options, and the options shown at the start of a run"],
  technique=KER, note=KNOTE + " The configuration file reader is compared with an automaton over all reachable states and classes of characters; the option table is that of the documentation. Trailing characters after a number are not judged."),
 dict(id="A12", title="Each epoch is one full backup, and its result is kept, numbered and saved",
  statement="A run reads the model, overrides the discount only when asked, names its files after the prefix, and starts from the terminal values given or from zero. Each epoch backs up the last result exactly once (projections, purge, the chosen method for every action, union, purge) and saves the sorted result with its epoch number; the run ends exactly when interrupted, when the stop criterion is met, or at the horizon. The last result, with its true values, and its policy graph are written to the files named.",
  over=["inputs", "configurations", "histories"], all="every model, method, horizon, stop rule, save option and number of epochs",
  why="A slip in the loop (an epoch too many, the wrong one of two lists, a file of the wrong epoch, a method not made ready) shows only for certain options or after several epochs.",
  files=["src/pomdp-solve.c"],
  mech=[("loop", "pomdp-solve.c: solvePomdp"), ("backup", "pomdp-solve.c: improveV, improveByQ, getDefaultInitialPolicy"), ("saving", "pomdp-solve.c: endPomdpSolve, handleSaveAll"), ("set-up", "pomdp-solve.c: initPomdpSolve, cleanUpPomdpSolve")],
  observe=["the files written and the report of every epoch"],
  technique=KER, note=KNOTE + " The main loop is judged by one iteration from an arbitrary state: what is called, with which list, in which order, and when it goes on."),
 dict(id="A14", title="Limits and interrupts take effect, and statistics report what happened",
  statement="A time limit given ends the run with a report once it is used up; an interrupt from the keyboard is noted and ends the run after the epoch. Every phase of an epoch is opened and closed in pairs on every path, never one within another (which would abort the run), and the work of each phase is accounted to it. Epochs, sizes, errors, times and linear programs are counted where they belong, and the totals and tables shown are those counted.",
  over=["inputs", "configurations", "schedules"], all="every path through an epoch (methods, stop rules, early returns), every moment of a signal, every number of epochs and phases",
  why="A phase left open on one path ends a later epoch in a failed assertion, only for that stop rule or method; limits and reports are not exercised by any test.",
  files=["src/signal-handler.c", "src/stats.c", "src/timing.c", "src/pomdp-solve.c", "src/zlz_speedup.c", "src/lp-interface.c"],
  mech=[("signals", "signal-handler.c: setUpIntervalTimer, setUpCtrlC and the handlers"), ("phases", "stats.c: startContext, endContext; their calls in pomdp-solve.c, zlz_speedup.c"), ("counting", "stats.c: recordLpStats, recordEpoch..., epochStartStats, epochEndStats"), ("reports", "stats.c: report...; timing.c: reportTimes")],
  observe=["that a run with -time_limit ends; the lines per epoch and the tables of -stat_summary"],
  technique="typestate of the phase (conditions of opening and closing calls compared as formulas), control-flow rule for signal handlers, and " + KER, note=KNOTE + " The memory limit is compiled out in this build and not judged."),
 dict(id="A15", title="Each tool of pomdp-tools needs its inputs and computes what it is documented to",
  statement="Each tool runs only when every input it needs is given, on those files and no others, and a refused or unknown request ends with an error status. Values of belief points are dot products, the best vectors of a point are all those within the tolerance of the best value, points are listed under the vectors that are best there (uniquely or not), and vectors of two value functions are matched by the smallest largest difference. Comparison, mapping, sorting, purging and relinking read all of the files, write the result to the file named, and show what was computed, with room for every point and vector.",
  over=["inputs", "configurations"], all="every choice of tool and options, every number of states, vectors and points, all values and tolerances",
  why="No test runs a tool that compares, maps, sorts or relinks; ties, points without difference and empty files are the cases that go wrong.",
  files=["src/pomdp-tools-main.c", "src/utils.c", "src/belief.c", "src/policy-graph.c"],
  mech=[("tool choice", "pomdp-tools-main.c: main"), ("values at points", "utils.c: UTIL_computeAlphaBeliefValues, UTIL_setAlphaMaximalPoints"), ("matching", "utils.c: UTIL_matchAlpha, UTIL_matchAlphaLists, UTIL_relinkPolicyGraph, UTIL_compareAlphaFiles"), ("reports", "utils.c: UTIL_mapBeliefList, UTIL_compareAlphaFilesUsingBeliefs, UTIL_report...")],
  observe=["the files written by pomdp-tools -tool ..."],
  technique=KER, note=KNOTE + " The isomorphism tool is not built and only its refusal is judged; lists of more than 98 points per vector end in a message (a documented limit)."),
 dict(id="A16", title="Files of vectors and points hold everything and read back the same",
  statement="A file of value function vectors or of belief points that is written holds every entry in order, with enough digits, each number ended by a blank, so that reading it gives the same list. Reading takes one entry after the other until the file ends or as many as were asked for (zero or less: all), keeps their order, actions and places, and reports a file that is missing or ends inside an entry without giving a partial list. Lists of points are added to, counted, searched and copied accordingly.",
  over=["inputs", "histories"], all="every number of entries and states, every value, every way a file can be cut short or malformed, every limit asked for",
  why="Reading stops at particular places of particular files; no test writes a file and reads it back, or reads one that is cut short.",
  files=["src/alpha.c", "src/belief.c"],
  mech=[("writing", "writeAlphaList, saveAlphaList; writeBeliefList, saveBeliefList"), ("reading", "readAlphaList; readBeliefList"), ("lists of points", "newBeliefNode, appendBeliefList, findBeliefState, sameBelief, duplicateBelief")],
  observe=["files written by pomdp-solve read by pomdp-tools or with -terminal_values"],
  technique=KER, note=KNOTE),
 dict(id="D03", title="No value is used before it is set and no null pointer is followed",
  statement="No step of the programs uses a local variable, a function result or a field of a newly made structure on a way on which nothing has given it a value. Where a pointer has just been found, or set, to be null, or has never been set anywhere, the ways on from there do not follow it or hand it to a routine that does. What opening a file or looking something up answers is checked before it is used, so a missing file or an absent entry never crashes a program.",
  over=["inputs", "faults"], all="every function of the three programs, every way through it, every file that cannot be opened and every lookup that finds nothing",
  why="Such a use often goes unnoticed: the memory happens to hold a harmless value, or the file happens to be there, in every test.",
  files=["src/alpha.c", "src/belief.c", "src/pg.c", "src/params.c", "src/utils.c", "src/parsimonious.c", "src/region.c", "src/stats.c", "src/mdp/mdp.c", "src/program-options.c"],
  mech=[("the null checks after fopen and after lookups", "each caller"), ("the field by field set-up of new structures", "newAlphaNode, newAlphaList, newPomdpSolveParams, LP_newLP, ..."), ("initial values of local variables", "each function")],
  observe=["memory safety, exit status for missing files"],
  technique=SSA + "forward must-analysis over all paths from every point where a value is unset or null (path facts pruned by the branches taken), with summaries of which parameters each function follows",
  note="Reports only where every way on from the point uses the value. Running out of memory is not looked at; eight routines that answer null only in cases their callers have excluded, and seven fields set by a later step, are exempt by name with a reason."),
 dict(id="D04", title="Loops stay inside the arrays they run over",
  statement="Wherever a loop runs an index up to or down from a limit (the number of states, actions, observations, nodes, rows, contexts, ...), every element it reads or writes lies inside the array: the limit never exceeds the number of elements the array was made with, and the index never falls below the first one. Arrays are made with as many elements, of the right size, as the loops over them visit.",
  over=["inputs"], all="every counted loop of the three programs and every array it indexes, for every size of model",
  why="One element too many usually lands in unused memory; a mix-up of two dimensions only shows for models where they differ in the right direction.",
  files=["src/alpha.c", "src/belief.c", "src/projection.c", "src/pomdp.c", "src/region.c", "src/two-pass.c", "src/lp-interface.c", "src/pg.c", "src/pg-eval.c", "src/stats.c", "src/utils.c", "src/zlz_speedup.c", "src/mdp/mdp.c", "src/mdp/sparse-matrix.c"],
  mech=[("sizes given when arrays are made", "newAlpha, newBelief, allocateAllProjections, PG_Constructor, LP_newLP, newIMatrix, ..."), ("loop limits", "each loop")],
  observe=["memory safety"],
  technique=SSA + "range analysis of loop indices as linear forms over the dimensions, compared with the lengths at every allocation site the array may come from (value flow through fields, globals, parameters and results)",
  note="Decides indices with a unit step and one limit, and parameters that callers pass such an index for; arrays whose length cannot be expressed in the same quantities are left out. Indices taken from data (node numbers, matrix columns) are not judged here."),
 dict(id="A17", title="The finite grid holds the points its type calls for; each gets its vector",
  statement="The finite-grid method works on the belief points its type calls for: the corners of the belief simplex, also all even mixtures of two states, or the points reached by a search that starts from the initial belief (or the even one) or from the even beliefs over the states sharing an observation. The search expands each point once, over every action and every possible observation, adds each successor that is not yet on the grid, and ends when nothing new is found or the limit on the number of points is exceeded. In every epoch each grid point contributes its best vector, and the grid is saved as asked.",
  over=["inputs", "histories"], all="every model, grid type, limit and precision",
  why="No test runs the grid method; a point that is missing or wrong only lowers the quality of the solution.",
  files=["src/finite-grid.c", "src/belief.c"],
  mech=[("points", "FG_addSimplexCorners, FG_addPairwise, genInitialDerivedBeliefStates, genAllBeliefStates"), ("search", "searchAndAddBeliefStates"), ("type, saving", "initFiniteGrid"), ("epoch", "improveFiniteGrid")],
  observe=["grid size and saved grid", "vectors found"],
  technique=SSA + "normal forms of the lists built, interpreted over small random structures; one-iteration normal forms of the search loops with what inner loops compute left open",
  note="How successors are computed is A03/A06; how lists of points are kept and compared is A16."),
 dict(id="D05", title="Every loop moves on: none can go round for ever doing the same",
  statement="No run of the programs hangs in a loop that makes no progress: every time round a loop, something that decides how it goes on changes (a list is advanced, a counter stepped, a set shrunk, input read), and a counter that ends a loop moves towards its limit and not away from it. This is a necessary condition for every solve, parse, evaluation and clean-up to end.",
  over=["inputs", "histories"], all="every loop of every reachable function and every way round it",
  why="A pass that forgets to advance hangs the program, often only for the rare input that takes that way round the loop; a test that never takes it sees nothing.",
  files=["src/alpha.c", "src/belief.c", "src/parsimonious.c", "src/region.c", "src/neighbor.c", "src/witness.c", "src/two-pass.c", "src/inc-prune.c", "src/linear-support.c", "src/vertex-enum.c", "src/finite-grid.c", "src/pg.c", "src/pg-eval.c", "src/stats.c", "src/utils.c", "src/config-file.c", "src/command-line.c", "src/program-options.c", "src/pomdp-solve.c", "src/mdp/mdp.c", "src/mdp/imm-reward.c", "src/mdp/parse_err.c", "src/mdp/sparse-matrix.c"],
  mech=[("list walks", "every while over alpha lists, belief lists, tables and trees"), ("counters", "every for"), ("worklists", "improveWitness, incremental pruning, vertex enumeration, linear support")],
  observe=["termination"],
  technique=SSA + "dependence closure: for each way round a loop, the values, memory and calls that the branch conditions depend on are compared with what that way round writes (interprocedural effect summaries)",
  note="Finds passes that provably repeat; whether a loop that always changes something also ends (convergence of value iteration, cycling of the simplex method) is not judged."),
 dict(id="E01", title="The same model, options and seed give the same results",
  statement="What the solver and the tools compute depends only on the model, the options and the seed of the random numbers: nothing read from the clock, the process number, the environment or the address of a piece of memory decides a step that makes results or is kept in one. A seed given on the command line or in the configuration file sets every part of the generator's state and is never replaced, so a run can be repeated; only without one is the state taken from the clock. Every random number comes from that one generator, and a random belief point is a probability distribution built from draws between 0 and 1.",
  over=["histories", "inputs"], all="every value that comes from outside, followed through the functions, fields, globals and local variables of the three programs; every random draw; every seed",
  why="Two runs of a test rarely differ enough to notice, and no test runs the same seed twice; a dependence on time or memory layout shows on another machine or day.",
  files=["src/random.c", "src/timing.c", "src/stats.c", "src/params.c", "src/alpha.c", "src/parsimonious.c", "src/common.c", "src/pomdp-solve.c"],
  mech=[("generator and seed", "fran, randomize, setRandomSeedFromString, getRandomDouble, setRandomDistribution"), ("clock and process number", "getSecsDetail, getPid, init_randomizer"), ("orders", "isLexicographicallyBetterAlpha, sortAlphaList, isBetterValue")],
  observe=["solution files of repeated runs", "random belief points"],
  technique=SSA + "information flow from the clock, process number and addresses (explicit and through branches) to result structures, over all functions; normal forms of the draws and the seeding",
  note="The time limit works by a signal and is A14; the linear-program library's own random pivoting is never seeded from outside and so repeats."),
 dict(id="E02", title="Whatever stops a run from doing what was asked is reported",
  statement="A file that cannot be opened, an option that is wrong, a model with errors or a step that cannot be done is never passed over in silence: a message is printed on every way on. The programs never end in the middle without a message, and a run ended by an error ends with a status other than 0. Results by which a routine tells that it could not open its file are looked at by those who call it.",
  over=["inputs", "faults"], all="every opening of a file and every way on from its failure through all callers, and every place where one of the three programs can end",
  why="Tests run only with files that exist and options that are right; a script that relies on the exit status sees the difference when something is missing.",
  files=["src/global.h", "src/alpha.c", "src/belief.c", "src/pg.c", "src/config-file.c", "src/program-options.c", "src/pomdp-solve-options.c", "src/pomdp-tools-options.c", "src/pomdp-tools-main.c", "src/params.c", "src/pomdp-solve.c", "src/lp-interface.c", "src/mdp/mdp.c", "src/mdp/parse_hash.c", "src/mdp/imm-reward.c"],
  mech=[("errors", "Abort, Assert, Warning, PO_handleError"), ("files", "every fopen and its callers"), ("ends", "every exit")],
  observe=["standard error", "exit status"],
  technique=SSA + "path search from every failed open to the ways out that avoids every call that prints (callers included), from the start of each function to every exit, and backwards from every exit for the message or failed test it follows",
  note="A run stopped by its time limit ends normally (A14). Where the solution file cannot be written the message is all there is: the run goes on and ends with status 0. What the message says is not judged."),
]
