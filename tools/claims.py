full = " Decided for all inputs under the assumptions listed in the evidence file; constructs the analysis cannot decide are reported as violations."
c("C02", "interval and coverage rules on the result stores, by " + sym, "Every combination of entry point, model type and transformation is analysed; integer overflow is not modelled." + full)
c("C03", "tiling, ownership and WaitGroup/channel typestate rules on goroutine regions, by " + sym, "Schedules are covered by ownership and protocol rules, not enumerated; panics inside workers are not modelled." + full)
c("C04", "fill/reset typestate of the scratch row, by " + sym, "Row pointers must not decrease and columns must not be negative." + full)
c("C05", "guard implication on stores, tree evaluations and error returns, by " + sym, "Fit is defined by the documented sizes; panics for inconsistent sparse matrices are outside the property." + full)
c("C06", "trip-count rules on the loops over trees, by " + sym, "Loop bounds are compared with the clamped request for all inputs." + full)
c("C07", "summand decomposition of accumulated values, by " + sym, "The formula is decided, floating-point rounding is not bounded." + full)
c("C08", "tree-number/cell agreement of leaf stores, by " + sym, "Decided for every tree model and entry point." + full)
c("C09", "decision-table equivalence of the tree walk (numerical splits), by " + sym, "NaN thresholds and nodes with both missing kinds are excluded by assumption." + full)
c("C10", "decision-table equivalence of the tree walk (categorical splits), by " + sym, "Categories fit 31 bits; int32(NaN) at a split without NaN handling is left open." + full)
c("C17", "value, coverage and kind rules on every Transform implementation, by " + sym, "Formulas are decided as real functions; overflow of the known shapes is excluded, rounding is not bounded." + full)
c("C01", "interprocedural effect (may-write) and purity analysis over SSA", "Flow-insensitive; memory is tracked by origin, library functions by an explicit list." + full)
c("C14", "error-flow (sticky error typestate) analysis of every function reachable from a loader, by " + sym, "Every function with an error result that does a step must leave a failing path with an error; end of input at a line read is the only exemption." + full)
c("C13", "must-check (validation dominance) analysis between tree conversion and use, by " + sym, "Termination follows from child indices that grow along every path, which is part of the rule." + full)
c("C15", "guard implication on success and error returns of the loaders, with constant propagation through string operations, by " + sym, "Header-level conditions are decided for all inputs; the objective strings are a fixed list of known and refused values." + full)
c("C16", "evaluation of the stored transformation's type and size per objective string (constant propagation) and of the views on every model type, by " + sym, "Objective strings are a fixed list of known values; refused ones are C15." + full)
c("C23", "symbolic evaluation of the metadata methods on the returned model against the fields of the file, by " + sym, "Integer conversions are taken as the identity." + full)
c("C11", "provenance (def-use) rules from the fields of the file to the fields of the model, coverage of the tree loops, by " + sym, "Positions and values are traced for all inputs; arithmetic on values (rounding) is taken as exact." + full)
c("C12", "provenance and must-pair rules on the category sets stored by the tree converters, by " + sym + " and bit-level dataflow (decision diagrams over word bits) on the helpers", "Membership is decided for all sets; categories are assumed not negative and the number of sets in the file positive." + full)
c("C18", "grammar conformance: ordered list of reads (" + sym + ") with type-derived layouts matched against the format; def-use of the fields read", "Complete for the layout: every read of the three readers is matched." + full)
c("C22", "typestate of opened files over all paths (deferred calls evaluated at each return), error-flow analysis of writers, and a token grammar of what is written, by " + sym, "Complete for files opened through os.Open, os.Create, os.OpenFile and temporary files in the module; what the operating system does with the bytes is taken as documented." + full)
c("C21", "path rules on the row readers (per line: one row, its entries appended once, every refusal an error), column/stride agreement of stores and row pointers, error-flow of the readers, by " + sym, "Complete for the readers and array constructors; parsing of numbers is trusted to strconv." + full)
c("C19", "per-opcode transfer functions of the decoder loop compared with the protocol's: stack, marks, memo, operands, result, by " + sym, "Complete for the opcodes of protocol 0 that are supported: every path of one round of the loop from an arbitrary state. Pickles are programs, so the per-round rule covers every program by induction." + full)
c("C20", "per-class contracts of the python objects restored (attribute, position and byte each field comes from; what is refused), with ParseClass cut at a contract that is checked itself, by " + sym, "Complete for the classes the loader supports: all paths of every Reduce and Build method and of ParseClass, for arbitrary decoded objects. That real scikit-learn writes these attributes is taken from its documentation of the format." + full)
c("C26", "interprocedural effect analysis (package state written or read, map iteration, outside sources) from every exported function, over SSA", "Complete for package variables and direct library calls of the module; library functions are trusted by an explicit list of packages." + full)
c("C27", "exhaustive case analysis (order, NaN, infinity, threshold) of the branch conditions and loop-coverage rules, by " + sym, "Thresholds are assumed to be numbers that are not negative; rounding of the difference is not modelled." + full)

NA = {
 "C24": "agreement with other libraries' numbers quantifies over their behaviour and floating-point results; no static argument over this source reaches it. Its structural parts are claimed as C07, C09-C12, C17.",
 "C25": "freedom from panics and bounded memory for arbitrary bytes needs bounds on run-time values (slice lengths read from the file, stack depths) that the loaders do not establish structurally; the part that concerns prediction after a successful load is claimed as C13, failing reads as C14.",
}
