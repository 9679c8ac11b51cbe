"""Registry: property -> (rule module, technique, explanation)."""
RULES = {}


def reg(pid, mod, technique, explanation):
    RULES[pid] = (mod, technique, explanation)


VN = "interprocedural abstract interpretation to value-number normal forms; "

reg("B02", "bench", VN + "equivalence of the benchmark formulas with reference definitions by normal form and random interpretation",
    "Every path of every eval method is summarised to an algebraic normal form over x and the dimension and compared with the "
    "normal form of the published formula; forms that differ are separated by random interpretation (identity testing) before a violation is reported.")
reg("B01", "bench", VN + "shape and bounds domain on constructor summaries, guard dominance of the input check, write-effect analysis",
    "Constructor summaries give dim, bounds, index sets and minimizer as terms in the dimension; they are compared with each other. "
    "Path facts of eval show that every path on a point of the wrong length raises, and the write effects show that the point is never modified.")
reg("U01", "formulas", VN + "identity of normal forms with reference maps (random interpretation), composition by substitution",
    "The return values of the box maps, the rounding and the rescaling are summarised to normal forms (per-column loops become column maps) and compared with their definitions; the round trip is checked by substituting one form into the other.")
reg("M06", "formulas", VN + "identity of normal forms with the documented kernels, tails and derivatives",
    "Each kernel and tail method is summarised and compared, elementwise, with the documented formula and its derivative; order, degree, dim_tail and the dimension guard are compared with the basis.")
reg("M09", "formulas", VN + "identity of the transformations' normal forms with their definitions, write-effect analysis of the argument",
    "Each output transformation is summarised to a normal form on columns and vectors and compared with its definition (values above the median replaced by the median, or nothing); writes to the argument are reported.")
reg("A01", "formulas", VN + "identity of merit normal forms with their definitions and of the selection loop's transition with the specified one",
    "The merit functions are summarised to normal forms and compared with their definitions; the transition of the selection loop (merit, choice, update) is compared with the specified one.")

reg("V01", "formulas", VN + "argument dataflow of the plotting calls, random interpretation over histories with unfinished evaluations",
    "The series and limits handed to the plotting calls on every path are evaluated over arbitrary histories and compared with the specified series.")

TR = "interprocedural abstract interpretation of the strategy protocol to transition summaries; "
ST = "All paths of propose_action, of every callback it registers (accepted, rejected, five record states), of resume and of the constructor are summarised over an arbitrary pre-state. "

reg("S01", "strat", TR + "inductive-invariant check by entailment in a finite counter domain",
    ST + "The budget invariant is proven for the constructor and for every transition; a counter-valuation of a path is reported.")
reg("S02", "strat", TR + "per-reply accounting of pending counter and pending list, random interpretation of the list terms",
    ST + "Each transition changes the outstanding counter and the pending list by exactly what its reply demands.")
reg("S03", "strat", TR + "per-reply accounting of the history, random interpretation of the list terms",
    ST + "Each transition appends the evaluated point and value for completed evaluations, and nothing otherwise.")
reg("S04", "strat", TR + "Houdini order invariants on record markers, guard entailment",
    ST + "Run data is appended exactly when the record belongs to the current run, for marker orders that every transition preserves.")
reg("S05", "strat", TR + "queue conservation as a difference of sequence terms",
    ST + "Every point leaves the queue only into the proposal, rejected or failed points return to it, and nothing else is dropped.")
reg("S06", "strat", TR + "guard entailment of termination and latch invariant",
    ST + "Every returned termination entails a legitimate reason, every reason entails that no evaluation is proposed, and every path answers the controller.")
reg("S07", "strat", TR + "post-state equality of the restart transition with the constructor's initial state",
    ST + "The restart transitions reset exactly the run-local state and keep the global history.")
reg("S08", "strat", TR + "guard entailment and counting of added queue elements",
    ST + "Generation transitions entail the batch discipline and add exactly the requested number of points.")
reg("S09", "strat", TR + "constructor summary compared with the specified queue and history, random interpretation",
    "The constructor is summarised for every combination of optional arguments and compared with the specified initial state.")
reg("S12", "strat", TR + "argument forwarding and loop-transition check of the weight cycle",
    ST + "Every search call receives the next cyclic weights and the position advances by the number handed out, in all modes.")

reg("S15", "strat", TR + "argument forwarding to the documented search, own surrogate, merit weights, radius",
    "the arguments of every search call on every path of propose_action are compared with the strategy's own attributes and the documented merit")
reg("S11", "adaptive", TR + "comparison of radius transitions with the reference step by random interpretation, marker invariants",
    ST + "Completed adaptive evaluations are compared, path by path, with one specified success/failure step on valuations that cover every path.")
reg("S13", "adaptive", TR + "replay of summarised loop and record effects over an abstract heap against the specified memory update; argument and guard dataflow of generation",
    ST + "The field updates of archive records and centers on every completed evaluation are replayed over abstract heaps and compared with the specified update; generation and release are checked on their guarded effect events.")

reg("S14", "adaptive", TR + "random interpretation of the center list's loop transitions over abstract archives, ranking and radius rule by their definitions",
    "The generation step is summarised over an arbitrary archive and list of centers; the list of centers it leaves is evaluated over abstract archives (ties excluded) and compared with the specified selection.")

SU = "interprocedural abstract interpretation of the surrogate classes to state-transition summaries; "
SE = ("Every method of every surrogate is summarised over an arbitrary object and the summaries are composed along construct / reset / add_points / predict histories, "
      "with kernels, tails, transformations and the wrapped regressors as uninterpreted functions. ")
reg("M01", "surr", SU + "typestate of the fit mark, comparison of the fitted data with the added data by random interpretation", SE + "The data a prediction depends on is compared with the points added since the last reset.")
reg("M02", "surr", SU + "comparison of stored data terms with the specified ones by random interpretation, aliasing check of the transformation's argument", SE + "Stored points, values, scaled copy and count are compared with the specified ones after every step.")
reg("M03", "surr", SU + "shape of result terms by random interpretation", SE + "The shape of every result is compared with one row per query.")
reg("M04", "surr", SU + "affine relation of queries, fitted values and results by random interpretation", SE + "Fitted points, queries, undone value scaling and the chain rule of derivatives are compared with the specified maps.")
reg("M05", "surr", SU + "comparison of constructor paths and of predictions with the specified RBF model by random interpretation", SE + "Defaults, refused combinations, forgetting on reset and the refit after a failed update are checked on all constructor and fit paths.")

CK = "interprocedural abstract interpretation to effect summaries; "
reg("C01", "ckpt", CK + "ordering (typestate) of the file effects on every path of save",
    "Every path of every save method is summarised to its open/dump/close/rename effects, whose path terms are evaluated for separating file names; the checkpoint is only ever replaced by a complete, closed file of the same directory.")
reg("C02", "ckpt", CK + "composition of callback-list summaries of controller, POAP record and strategy up to a fixed point",
    "Constructor, new_feval, acceptance and status updates are composed over the live list of record callbacks; after each final status a save of the strategy follows the strategy's own callback.")
reg("C03", "ckpt", CK + "effect order of the controller's resume and post-state of the strategy's resume step against the specified one",
    "The controller's resume path is checked for load, install, resume step and run in order; the strategy's resume transition is compared with the specified requeueing, everything else unchanged.")

NM = "name resolution over all scopes and flow-insensitive dataflow; "
reg("K03", "lint", NM + "source classification of every random draw, seed, clock, identity and unordered-collection use",
    "Every call of every function is resolved through imports, aliases and getattr to the library function it names; seeds are traced to where their value comes from.")
reg("K04", "lint", NM + "alias tracking of mutable defaults, class-level containers, module variables and caches to in-place changes",
    "Every mutable object created once per process is followed through local and self aliases to the in-place changes of any method in the class family.")
reg("K05", "lint", NM + "symbol-table binding check, attribute and signature consistency, library introspection, unbound/missing events of the abstract interpreter",
    "Every name, attribute of self, library name, keyword and resolvable call of the package is checked against its definition, and every function's interpreted paths for unbound locals.")
reg("M07", "alias", "interprocedural abstract interpretation with storage roots (alias/ownership analysis of in-place writes through views, attributes and containers)",
    "Every in-place write event of every interpreted path of every function, surrogate, strategy transition and constructor is resolved to the storage it changes, which must not be the caller's.")

LP = "interprocedural abstract interpretation of loops to transition relations, iterated over random valuations of their inputs; "
reg("U02", "search", LP + "comparison of the result with every evaluated generation",
    "The optimisation is summarised with its objective, draws, sizes and integer sets arbitrary; the point and value returned are compared with all populations the objective is applied to; starts are classified into accepted and rejected.")
reg("U03", "search", LP + "comparison with the definitions of domination, partition, rank and radius rule",
    "Domination, incremental partition, splitting, ranking and the radius rule are summarised and compared with their definitions on separating sets of vectors and centers.")
reg("D01", "design", VN + "random interpretation of the selection loop's transition relation over arbitrary trials and draws",
    "generate_points of every design is summarised with its trials as arbitrary matrices (and, for the symmetric design, with its own draws); the trial returned, its mapping and rounding, "
    "the refusals, the announced size and the corners are compared with the specified ones.")
reg("D02", "design", VN + "random interpretation of the generators over their own draws",
    "The symmetric generator is summarised with its draws arbitrary and every design checked for one point per level and symmetry; the Latin design's call of the library generator and the trial it returns are compared with the requested design.")
reg("M08", "surr", SU + "random interpretation of the factorization and its extension with kernel and tail uninterpreted",
    "Histories that add the data in steps are composed from the summaries of add_points, the fit and predict; the prediction of the extended model is compared with that of the model built at once, and, without regularization, with the data.")
reg("A02", "search", VN + "random interpretation of masks, selection and search-loop transitions; dataflow of run data into the searches",
    "The masks of the merits, the selection loop and the acquisition search loops (with the optimiser and the surrogate uninterpreted and its objective evaluated at arbitrary points in every iteration) "
    "are compared with the specified ones; the arguments of every search call of every strategy are traced to the run data, pending points and tolerance.")
reg("S10", "domain", VN + "random interpretation of every produced point over valuations whose inputs lie in the domain",
    "Candidate sets, selections, genetic populations and results, acquisition searches, mapped designs, queues and proposals of every strategy transition are evaluated on arbitrary points of the domain, draws and surrogate values; every point produced must lie in the box and be integer where required.")
reg("A03", "search", "interprocedural abstract interpretation of the candidate searches, random interpretation of the candidate-set terms over arbitrary draws",
    "The candidate set handed to the selection is summarised for every combination of omitted optional arguments; its columns are matched with the draws they come from, whose parameters are compared with the documented ones.")
reg("A04", "search", VN + "random interpretation of the perturbation probability each strategy transition hands to the dynamic coordinate search",
    "Every call of the dynamic coordinate search in every transition of every strategy is traced to the probability passed; its term, with attributes only construction sets replaced by what construction gives them, is compared with the documented formula.")
reg("K01", "config", VN + "random interpretation of the guards of the raising paths over boundary configurations",
    "The problem check and all strategy constructors are summarised with arbitrary arguments of arbitrary kind; invalid configurations, one defect each at the boundary of what is allowed, must satisfy a raising path and valid ones none.")
reg("K02", "config", VN + "comparison of constructor states, transition frames and search arguments with the configuration by random interpretation; dependency analysis of public functions",
    "Constructors are summarised with every subset of omitted optional arguments of interest and compared, attribute by attribute, with the arguments and documented defaults; every transition leaves the configuration alone; "
    "every search call of every strategy is traced back to it.")

# obligations decided by another property's rule that this property's statement contains as well:
# (rule, which obligations).  An obligation "... without <argument> ..." speaks about that argument only when the same obligation with the argument given holds.
SHARE = {
    "C03": [("C01", r"objects are saved as they are|keeps its whole state")],
    "M02": [("M04", r"scaled copy$")],
    "M01": [("M08", r"predict")],
    "S13": [("U03", r"nd_|domination")],
    "S14": [("U03", r"nd_|domination|radius rule")],
    "K02": [("D01", r"number of trials|without"), ("A03", r"without"), ("M05", r"^default for"), ("A02", r"without"), ("U03", r"radius rule default")],
}


def shared(pid, p, rep, tier, seed):
    import importlib
    import re
    from ..report import Report
    for other, which in SHARE.get(pid, ()):
        sub = Report(pid)
        try:
            getattr(importlib.import_module("sa.rules." + RULES[other][0]), "rule_" + other)(p, sub, tier, seed)
        except Exception as e:
            if type(e).__name__ == "TimeUp":
                raise
            rep.unknown("obligations shared with %s" % other, "", "%s: %s" % (type(e).__name__, e))
            continue
        verdict = {}
        for o in sub.obs:
            verdict.setdefault(o["obligation"], set()).add(o["verdict"])
        rep.units |= sub.units
        for o in sub.obs:
            key = o["obligation"]
            if not re.search(which, key):
                continue
            v = o["verdict"]
            base = re.sub(r" without .*?(?= candidates$| search$| hands on its data$|: number of trials$|$)", "", key)
            if base != key and v == "refuted" and verdict.get(base) != {"proven"}:
                v = "unknown"
            rep.add("%s (%s)" % (key, other), o["where"], v, o["detail"])
