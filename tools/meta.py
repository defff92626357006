"""The properties, in one place. tools/gen_meta.py writes properties.jsonl and MANIFEST.json from here."""

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, state=list(state), observe=list(observe),
                  technique=technique, note=" ".join(note.split())))


prop("C01", "Closed itemset mining is exact: sound, complete, without duplicates",
     """Mining closed itemsets from a transaction database returns every itemset that occurs in at least the minimum support
     (absolute count, or fraction of the number of transactions) and has no strict superset in exactly the same transactions, each once,
     and nothing else; each comes with its exact support and, on request, the exact list of transactions that hold it.
     Restrictions on the number of items filter that result and change nothing else.
     The result does not depend on the container or order of the input, the type of the items, the number of jobs, writing to a file, or
     earlier uses of the same miner; a minimum support outside the accepted range is refused.""",
     ["inputs", "configurations", "histories"],
     "every transaction database with comparable items, every minimum support > 0, every output option, n_jobs and refit history",
     "Tests mine three hand-written databases; completeness, closure and exact supports quantify over all databases, thresholds and "
     "their rounding, and the parallel and file paths are only sampled once.",
     ["skmine/itemsets/lcm.py", "skmine/utils.py"],
     [("prefix-preserving closure extension, first-parent test", "skmine/itemsets/lcm.py"),
      ("threshold conversion and item filtering at fit", "skmine/itemsets/lcm.py"),
      ("relative/absolute support check", "skmine/utils.py:_check_min_supp")],
     [("item to tids index", "inverted index of the frequent items", "skmine/itemsets/lcm.py")],
     ["fit", "transform", "fit_transform", "output file"],
     "runtime monitor: differential oracle on the miner's output",
     "Exploration: every observed result is compared with an independent enumeration of the closed sets (intersections of transactions); "
     "trusts that enumeration.")

prop("C02", "Maximal itemset mining is exact",
     """Mining maximal itemsets returns exactly the frequent itemsets that have no frequent strict superset, each once, with exact
     support and transaction list.
     Restrictions on the number of items filter that result; data in which nothing is frequent gives an empty result with the same
     columns.
     The result is independent of the input container and order, the number of jobs, writing to a file and earlier uses.""",
     ["inputs", "configurations", "histories"],
     "every transaction database with comparable items, every minimum support > 0, every output option and n_jobs",
     "Tests check two small databases; maximality across branches of the search is a relation between results of different branches, "
     "which only diverse databases exercise.",
     ["skmine/itemsets/lcm.py"],
     [("maximality test across branches", "skmine/itemsets/lcm.py:LCMMax")],
     [], ["fit", "transform"],
     "runtime monitor: differential oracle on the miner's output",
     "Exploration: every observed result is compared with the maximal elements of an independent closed-set enumeration.")

prop("C03", "SLIM is lossless: the code table covers its data exactly and disjointly",
     """After fitting a SLIM model on any transaction or tabular data, the itemsets of its code table, with their transaction lists, cover each
     transaction exactly: the itemsets used by a transaction are disjoint and their union is the transaction, for every transaction including empty
     and duplicated ones, with or without pruning, item universe, class labels or time limit.
     Reconstruction gives back the original transactions, in order, with their items sorted.
     Every view of the code table (with or without singletons, transaction lists, lists or strings, in memory or written to file) describes
     the same table, and every item of the data has an itemset of its own.""",
     ["inputs", "configurations"],
     "every transaction database or boolean table, every parameter setting and every output option",
     "Tests reconstruct a few fixed databases with the default parameters; covers depend on tie-breaking, pruning cascades and "
     "interleavings of accepted candidates, which only many databases reach.",
     ["skmine/itemsets/slim.py"],
     [("greedy cover restricted to the transactions touched by a candidate", "skmine/itemsets/slim.py:SLIM.evaluate"),
      ("pruning of itemsets whose usage decreased", "skmine/itemsets/slim.py:SLIM._prune"),
      ("reconstruction", "skmine/itemsets/slim.py:SLIM.reconstruct")],
     [("codetable_", "itemset to the transactions it covers", "skmine/itemsets/slim.py")],
     ["fit", "transform", "reconstruct", "output file"],
     "runtime monitor: partition invariant over the code table and reconstruction",
     "Exploration: the exact-partition invariant and all views are checked on each fitted model; the input itself is the oracle.")

prop("C04", "SLIM description lengths are exact and fitting never lengthens the description",
     """The data and model sizes a SLIM model reports always equal the two-part code lengths implied by its code table: each use of an
     itemset costs minus log2 of its share of all uses, each itemset in use costs its code plus its items coded by their frequencies in the data.
     Every itemset accepted while fitting, and every pruning step, strictly reduces the total, so the result is never longer than the
     singleton-only description; the reported sizes of an evaluation are those the table gets when it is accepted.
     Candidates are proposed in order of estimated gain, each once, and only as unions of two itemsets used together;
     a longer time limit never gives a longer description, and one that is not reached changes nothing.""",
     ["inputs", "configurations", "histories"],
     "every database and parameter setting, and every sequence of accepted candidates",
     "Tests compare sizes for a handful of hand-computed tables; incremental size updates can drift from the true value for "
     "particular usage changes (usage falling to zero, pruned sets, re-used singletons).",
     ["skmine/itemsets/slim.py"],
     [("incremental size computation", "skmine/itemsets/slim.py:SLIM.evaluate"),
      ("acceptance test on total size", "skmine/itemsets/slim.py:SLIM.fit"),
      ("candidate generation", "skmine/itemsets/slim.py:SLIM.generate_candidates")],
     [("data_size_, model_size_", "current code lengths", "skmine/itemsets/slim.py")],
     ["fit", "evaluate", "update", "generate_candidates"],
     "runtime monitor: traced accepted steps, sizes recomputed in exact arithmetic",
     "Exploration: sizes after every accepted step are recomputed from the table; relative tolerance 1e-4.")

prop("C05", "Encoding new data with a fitted SLIM model",
     """Covering any data with a fitted SLIM model represents each row by disjoint itemsets of the code table whose union is the set of the row's
     items known to the model, chosen greedily in the standard cover order (longer, then more frequent in the training data, then lexicographic).
     The code length of a row is the sum of the code lengths of its itemsets with usages smoothed as documented, a row with nothing encodable being
     infinitely long, and the decision value of a row is exp(-0.2 x its code length), so that shorter codes score higher.
     A row's result does not depend on the other rows, the input representation or earlier calls, and encoding never changes the model.""",
     ["inputs", "configurations", "histories"],
     "every training database, every new data set (unseen items, empty rows, training rows) and every representation",
     "Tests score a couple of rows; the cover order has ties and boundary cases (unused itemsets, unseen items, zero-bit models) that "
     "fixed examples do not reach.",
     ["skmine/itemsets/slim.py"],
     [("cover in standard cover order", "skmine/itemsets/slim.py:cover"), ("code length", "skmine/itemsets/slim.py:SLIM.get_code_length")],
     [], ["cover", "get_code_length", "decision_function"],
     "runtime monitor: reference encoder run beside the real one",
     "Exploration: an independent greedy encoder recomputes each row's cover and length.")

prop("C06", "The SLIM classifier picks the class whose own model encodes the row shortest",
     """A fitted SLIM classifier holds one model per class, each trained, with the parameters given, on exactly the rows of that class, and predicts for
     each row the class whose model encodes the row with the shortest code.
     The classes are the distinct labels in sorted order and predictions are always among them, with one per row.
     Predictions do not depend on the other rows predicted at the same time, on earlier fits, or on how long the rows are.""",
     ["inputs", "configurations", "histories"],
     "every labelled database with any number of classes and labels, every parameter setting, every row to predict",
     "Tests predict a handful of rows of two classes; numeric underflow, ties, label order and refits need other inputs.",
     ["skmine/itemsets/slim_classifier.py", "skmine/itemsets/slim.py"],
     [("one model per class", "skmine/itemsets/slim_classifier.py:SlimClassifier.fit"),
      ("argmax over class scores", "skmine/itemsets/slim_classifier.py:SlimClassifier.predict")],
     [], ["fit", "predict", "score"],
     "runtime monitor: per-class code lengths recomputed beside the predictions",
     "Exploration; near-ties (1e-3 bits) accept either class.")

prop("C07", "SLIM vectorizer features are exact, disjoint and valued as documented",
     """A fitted SLIM vectorizer turns any data into one row per input row and at most k columns, each column an itemset of the underlying code table
     made of items present in the data and of no stop item: the k most used ones, in decreasing order of usage.
     A cell is non-zero exactly when the pattern takes part in the disjoint cover of the row by the chosen columns in that order, and is then 1, or with the code strategy the pattern's
     probability in the training data.
     Transforming the training data gives what fitting and transforming at once gives; unknown strategies are refused.""",
     ["inputs", "configurations"],
     "every training and transformed data set, k, strategy, stop items and pruning",
     "Tests check one database with one k; the cut at k, stop items and data unlike the training data are untested.",
     ["skmine/feature_extraction/slim_vectorizer.py", "skmine/itemsets/slim.py"],
     [("column selection", "skmine/feature_extraction/slim_vectorizer.py:SLIMVectorizer.fit"),
      ("cell values", "skmine/feature_extraction/slim_vectorizer.py:SLIMVectorizer.transform")],
     [], ["fit", "transform", "fit_transform"],
     "runtime monitor: reference cover recomputed per cell",
     "Exploration: each cell is recomputed from the code table read through the public API.")

prop("C08", "Interactive and repeated use of one SLIM object always reflects its current data",
     """Whatever sequence of ingesting data, refitting, generating, evaluating and accepting itemsets, querying supports and reading a SLIM object goes through,
     its code table stays an exact disjoint cover of the data ingested last, its sizes match that table and support queries give exactly the transactions of
     that data.
     Queries and evaluations leave the model unchanged, refitting gives the model a fresh object would have, and two models never influence each other.""",
     ["histories", "inputs"],
     "every finite sequence of public operations on one or two SLIM objects",
     "Tests follow one scripted session; stale caches and leftovers need particular orders of operations over different data.",
     ["skmine/itemsets/slim.py"],
     [("ingestion resets state", "skmine/itemsets/slim.py:SLIM.prefit"), ("support cache", "skmine/itemsets/slim.py:SLIM.get_support"),
      ("in-place update", "skmine/itemsets/slim.py:SLIM.update")],
     [("codetable_", "itemset to covered transactions", "skmine/itemsets/slim.py"),
      ("support cache", "memoised supports", "skmine/itemsets/slim.py")],
     ["prefit", "fit", "update", "evaluate", "get_support", "reconstruct"],
     "runtime monitor: online checker of operation histories against a reference model",
     "Exploration of random operation histories; every intermediate state is checked.")

prop("C09", "Periodic mining is lossless: patterns and residuals partition the log",
     """After mining any event log, the occurrences reconstructed from all the patterns and the residuals together are exactly the distinct
     (time, event) records of the log: nothing invented, nothing lost, nothing in both, nothing repeated, in the log's own time type and unit.
     For any selection of pattern identifiers the reconstruction is the union of what these patterns cover (or, on request, their multiset), and the residuals are
     its complement; the sort option changes only the order.
     Chronological disorder, repeated records, simultaneous events and earlier fits do not matter, the log passed in is not changed, and
     logs whose index is neither dates nor integers are refused.""",
     ["inputs", "configurations", "histories"],
     "every log of comparable events on integer or naive datetime indexes, with or without combined patterns and time scaling, every selection of patterns",
     "Tests reconstruct a few logs that are mostly one cycle; concatenated and nested patterns, time scaling and unusual indexes need "
     "many logs.",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/data_sequence.py", "skmine/periodic/run_mine.py"],
     [("reconstruction from the patterns", "skmine/periodic/cycles.py:PeriodicPatternMiner.reconstruct"),
      ("residuals of a selection", "skmine/periodic/cycles.py:PeriodicPatternMiner.get_residuals"),
      ("removal of trailing zeros of the timestamps", "skmine/periodic/cycles.py"),
      ("combination of candidates", "skmine/periodic/run_mine.py:prepare_candidate_concats")],
     [("miners_", "collection of selected patterns", "skmine/periodic/cycles.py")],
     ["fit", "reconstruct", "get_residuals"],
     "runtime monitor: conservation check of records over reconstruction and residuals",
     "Exploration; the mined log itself is the oracle (conservation of records).")

prop("C10", "Periodic patterns are costed exactly and never lengthen the description",
     """Every selected pattern has at least three repetitions, all its occurrences are in the log, its code length is exactly the one the encoding defines for
     its structure, start and corrections, and it costs fewer bits than listing the occurrences it alone adds.
     The total code length reported is the patterns' plus the residuals', it never exceeds that of listing every record, and the reported statistics
     (numbers of patterns, types, residuals, lengths, ratio) agree with the patterns.
     A log that is one perfectly regular cycle is described by that single cycle.""",
     ["inputs", "configurations"],
     "every log, with and without combined patterns",
     "Tests compare code lengths of two or three fixed patterns; the length has terms that only matter for nested, concatenated or "
     "corrected patterns and selection is a relation over all candidates.",
     ["skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/extract_cycles.py", "skmine/periodic/run_mine.py", "skmine/periodic/class_patterns.py"],
     [("code length of a pattern", "skmine/periodic/pattern.py:Pattern.codeLength"),
      ("greedy selection by cost per new occurrence", "skmine/periodic/run_mine.py:filter_candidates_cover"),
      ("statistics", "skmine/periodic/pattern_collection.py")],
     [], ["fit", "codeLength", "strDetailed"],
     "runtime monitor: code lengths recomputed from an independent definition",
     "Exploration: an independent implementation of the encoding recomputes each length; tolerance 1e-9.")

prop("C11", "The table of periodic patterns says exactly what the patterns cover",
     """Each row of the table of mined patterns, read on its own (start, pattern text, corrections), expands to exactly the occurrences reconstructed for that
     pattern identifier, in the time unit of the log, for integer and dated logs, scaled or not; the major repetition, period and summed
     corrections agree with the text.
     There is one row per pattern, in chronological order or in identifier order on request, and multiplying all integer times by a power of ten
     multiplies starts, periods and corrections by it and changes nothing else.
     The drawing of a pattern shows its repetitions, periods, events and distances, and neither reading nor drawing changes the patterns.""",
     ["inputs", "configurations"],
     "every log and unit, every selected pattern",
     "Tests look at the table of one or two logs; units and corrections go wrong only for particular scales and combined patterns.",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/pattern.py"],
     [("table construction and unit restoration", "skmine/periodic/cycles.py:PeriodicPatternMiner.transform"),
      ("pattern text", "skmine/periodic/pattern.py:Pattern.__str__"), ("drawing", "skmine/periodic/pattern.py:draw_pattern")],
     [], ["transform", "reconstruct", "draw_pattern"],
     "runtime monitor: independent interpreter of each table row against reconstruction",
     "Exploration: two outputs of the real code are compared through an independent interpreter of the notation.")

prop("C12", "Exported periodic patterns can be imported back without any difference",
     """Exporting mined patterns to a file and importing the file into another miner with the same parameters, whatever it did before, gives a miner
     whose pattern table, reconstruction and residuals, for every selection of pattern identifiers, are those of the exporting miner.
     Exporting what was imported writes the same content again, also through several rounds and after refits, and for logs without any pattern.""",
     ["inputs", "histories"],
     "every log with textual events, every history of fits, exports and imports over several miners",
     "Tests round-trip one log once; identifier order, residual-only alphabets, unit scaling and re-exports are not covered.",
     ["skmine/periodic/cycles.py"],
     [("export", "skmine/periodic/cycles.py:PeriodicPatternMiner.export_patterns"), ("import", "skmine/periodic/cycles.py:PeriodicPatternMiner.import_patterns")],
     [], ["export_patterns", "import_patterns", "transform", "reconstruct", "get_residuals"],
     "runtime monitor: round-trip checker over recorded export/import histories",
     "Exploration; the exporting miner is the oracle.")

prop("C13", "Pattern trees expand, invert, combine and factorise consistently",
     """For every pattern tree, start and list of corrections, the expansion gives each occurrence at its start plus periods and distances plus the corrections it
     inherits, corrections recomputed from the occurrences are the original ones, and the counts of occurrences, leaves, depth, width, events, periods, types
     and positions agree with the tree.
     Appending, merging, repeating, translating, renaming and copying produce the tree they describe and leave their arguments alone.
     Factorising a pattern keeps exactly the same set of occurrences with fewer blocks.""",
     ["inputs", "histories"],
     "every tree of any depth and width, every correction list and every sequence of tree operations",
     "Tests build three small trees; key handling and error inheritance differ with depth, several children and repetition counts.",
     ["skmine/periodic/pattern.py", "skmine/periodic/candidate.py"],
     [("expansion", "skmine/periodic/pattern.py:Pattern.getOccsStar"), ("corrections", "skmine/periodic/pattern.py:Pattern.computeEFromO"),
      ("factorisation", "skmine/periodic/candidate.py:Candidate.factorizePattern")],
     [("nodes", "tree of blocks and leaves", "skmine/periodic/pattern.py")],
     ["getOccs", "getCovSeq", "computeEFromO", "append", "merge", "repeat", "factorizePattern"],
     "runtime monitor: differential interpreter over random trees and operation histories",
     "Exploration: an independent recursive interpreter is the oracle.")

prop("C14", "Cycle extraction and combination yield only true, exactly costed candidates",
     """Every candidate generated while mining, selected or not, simple, nested or concatenated, describes occurrences that are in the log, lists exactly those
     its structure, start and corrections expand to, and carries the code length the encoding defines.
     Segmenting the occurrences of an event into cycles and leftovers yields a partition, and for up to 200 occurrences one of minimal total code length;
     chained candidates have the median gap (rounded down) as period and cost less than listing them, and three-occurrence seeds respect the bounds on regularity and
     period.
     Selected patterns are among the candidates.""",
     ["inputs", "configurations"],
     "every sequence of occurrences of an event and every log",
     "Tests extract cycles from fixed sequences; optimality of the dynamic program and validity of combined candidates are universal.",
     ["skmine/periodic/extract_cycles.py", "skmine/periodic/run_mine.py", "skmine/periodic/candidate.py", "skmine/periodic/candidate_pool.py"],
     [("dynamic programming segmentation", "skmine/periodic/extract_cycles.py:compute_cycles_dyn"),
      ("triple folding", "skmine/periodic/extract_cycles.py:extract_cycles_fold"),
      ("vertical and horizontal combination", "skmine/periodic/run_mine.py")],
     [("candidate pool", "all candidates generated so far", "skmine/periodic/candidate_pool.py")],
     ["compute_cycles_dyn", "extract_cycles_fold", "mine_seqs"],
     "runtime monitor: replay of every candidate, reference dynamic program",
     "Exploration: independent interpreter, cost function and linear dynamic program as oracles.")

prop("C15", "MDLP discretisation places exactly the cut points its criterion accepts",
     """For every numeric table with integer labels (any number of classes, negative labels, any numeric type), the cut points of a column are increasing midpoints of
     neighbouring values chosen by recursively taking the split of least class entropy and keeping it exactly when its information gain exceeds the description-length
     threshold, independently of the order of rows, of other columns and of earlier fits.
     Transforming maps each value of each column, matched by name for data frames, to the number of that column's cut points below it, keeps shape and index, and leaves
     its input unchanged.""",
     ["inputs", "configurations", "histories"],
     "every numeric table and labelling",
     "Tests discretise Iris-like tables; tie-breaking, integer overflow and class counts only show on other data.",
     ["skmine/preprocessing/mdlp_discretizer.py"],
     [("recursive splitting", "skmine/preprocessing/mdlp_discretizer.py"), ("transform", "skmine/preprocessing/mdlp_discretizer.py:MDLPDiscretizer.transform")],
     [("cut_points_", "cut points per column", "skmine/preprocessing/mdlp_discretizer.py")],
     ["MDLPDiscretizer.fit", "MDLPDiscretizer.transform", "fit_transform"],
     "runtime monitor: recursive reference criterion over observed cut points",
     "Exploration: independent entropy/MDL rule accepting every tie-breaking, structural clauses on all data.")

prop("C16", "Borders describe exactly the emerging itemsets",
     """For any two-class transactional data and thresholds, the itemsets lying between the borders found by the emerging pattern miner are exactly the itemsets that are frequent
     in the second class (at the minimum support times the growth rate) and infrequent in the first (at the minimum support), and the left borders hold the minimal ones.
     Discovering lists, each once per border and without repeated items, exactly the emerging itemsets of at least the requested size strictly between the borders; data is not
     modified and earlier fits do not matter.
     The difference of a border with any family of sets is the collection of subsets contained in none of them, given by its minimal members.""",
     ["inputs", "configurations", "histories"],
     "every pair of collections of sets and every thresholds with product at most one",
     "Tests use two or three collections; set algebra errors depend on inclusion structure between maximal itemsets.",
     ["skmine/emerging/mbdldorber.py"],
     [("border difference", "skmine/emerging/mbdldorber.py:border_diff"), ("mining", "skmine/emerging/mbdldorber.py:MBDLLBorder.fit"),
      ("listing", "skmine/emerging/mbdldorber.py:borders_to_patterns")],
     [("borders_", "list of (left, right) borders", "skmine/emerging/mbdldorber.py")],
     ["MBDLLBorder.fit", "discover", "border_diff", "mbdllborder", "borders_to_patterns"],
     "runtime monitor: exhaustive itemset lattice as oracle",
     "Exploration: brute-force supports of all itemsets of small alphabets.")

prop("C17", "Graph compression is lossless, exactly costed, and never grows",
     """For every labelled directed graph or multigraph without self-loops, fitting terminates with or without a time limit, leaves the graph untouched, and yields a code table
     whose cover uses only real, edge-disjoint embeddings, covers every edge and vertex label (single ones for the rest), and whose rewritten graph decodes to a graph isomorphic
     to the data.
     The reported initial and final description lengths equal the two-part code of the single-label table and of the final table, and the final one is never larger, nor larger than under a shorter time limit.
     The patterns returned are exactly those the final cover uses, refitting gives what a fresh miner gives, and a time limit that is not reached
     changes nothing.""",
     ["inputs", "histories", "schedules"],
     "every labelled directed (multi)graph, any vertex names, any number of labels per vertex, any time limit and any sequence of fits",
     "Tests fit one eight-vertex graph; port bookkeeping, pruning and multigraph matching depend on the graph.",
     ["skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/code_table_row.py"],
     [("search", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL.fit"), ("cover", "skmine/graph/graphmdl/code_table.py:CodeTable.cover"),
      ("ports", "skmine/graph/graphmdl/code_table.py:CodeTable.search_port"), ("length", "skmine/graph/graphmdl/code_table.py:CodeTable.compute_rewritten_graph_description")],
     [("code table", "patterns, usages, ports", "skmine/graph/graphmdl/code_table.py"), ("rewritten graph", "embeddings and ports", "skmine/graph/graphmdl/code_table.py")],
     ["GraphMDL.fit", "patterns", "description_length", "initial_description_length", "discover"],
     "runtime monitor: decoder and independent two-part code over fitted code tables",
     "Exploration: decoding up to isomorphism plus recomputation of cover and lengths.")

prop("C18", "Graph embeddings, code lengths and merge candidates are exact",
     """The embeddings found for a pattern in a directed, undirected or multigraph are exactly the injective vertex maps that preserve edges with their labels and map each vertex to
     one carrying at least its labels, each listed once; those of a graph in itself are its automorphisms.
     Label codes are the base-two logarithms of inverse label frequencies (together a complete code), and the lengths of patterns, single vertices, single edges, integers,
     binomials and count sequences equal their closed formulas, whatever the size of the numbers.
     Candidates generated from a covered code table are exactly the pairs of patterns whose embeddings share ports, and each is merged into the two patterns glued at these ports,
     which occurs in the data.""",
     ["inputs"],
     "every labelled graph without self-loops, every pattern and every non-negative integer argument",
     "Tests compare fixed graphs and a few numbers at ten percent tolerance.",
     ["skmine/graph/graphmdl/utils.py", "skmine/graph/graphmdl/label_codes.py", "skmine/graph/graphmdl/candidate.py"],
     [("embeddings", "skmine/graph/graphmdl/utils.py:get_embeddings"), ("lengths", "skmine/graph/graphmdl/utils.py:encode"),
      ("candidates", "skmine/graph/graphmdl/utils.py:generate_candidates"), ("merging", "skmine/graph/graphmdl/candidate.py:Candidate.merge_candidate")],
     [("label codes", "code length per label", "skmine/graph/graphmdl/label_codes.py")],
     ["get_embeddings", "LabelCodes.encode", "prequential_code", "binomial", "universal_integer_encoding", "generate_candidates", "Candidate.final_pattern"],
     "runtime monitor: exhaustive embedding search, closed forms, gluing oracle",
     "Exploration: backtracking search, lgamma closed forms and set-level gluing as oracles.")

prop("C19", "Callbacks observe each call exactly once and change nothing",
     """Attaching callbacks to an object makes each of them run exactly once after every successful call of its method, and never after a failed one, with the object and/or the very result
     (or its elements, when the callback takes several parameters), while the method is executed once with its own arguments and returns the same result as without callbacks; other methods and
     other objects are unaffected, and an exception raised by a callback reaches the caller unchanged.
     A callback that assigns to the observed object, or a collection naming a method the object does not have, is refused before anything is attached, and a collection of callbacks cannot be
     modified after its construction.
     Miners observed by the predefined or user-defined callbacks find exactly what they find unobserved, and the printing callbacks report the numbers that occurred.""",
     ["inputs", "histories", "configurations"],
     "every object, method result and callback taking the object, the result or its elements, and every sequence of calls",
     "Tests attach three callbacks to one miner; results of other shapes, callable objects and failing methods or callbacks are not sampled.",
     ["skmine/callbacks.py"],
     [("attaching", "skmine/callbacks.py:CallBacks.__call__"), ("wrapping", "skmine/callbacks.py:post")],
     [("callbacks", "immutable mapping from method names to callables", "skmine/callbacks.py")],
     ["CallBacks.__call__", "post", "mdl_prints"],
     "runtime monitor: event log of method and callback executions checked online",
     "Exploration: event-log oracle over random callback shapes, results, failures and call sequences; observed and unobserved miners compared.")

prop("C20", "Synthetic data has the requested shape and is reproducible",
     """Generated transactions have the requested number, item alphabet and density, without repeated items; generated classification data has the requested number of samples, aligned labels, class
     proportions (nothing for a class of weight zero) and separation of the class alphabets, and shuffling only reorders samples together with their labels.
     The same seed or an equal random generator object always gives the same data, a generator object advances, and the global random state and the parameters passed in are left alone.
     The descriptions of a transaction database or an event log state its exact numbers of items, transactions or events, mean sizes, density and mean delays.""",
     ["inputs", "configurations"],
     "every size, density, alphabet, class weighting, separation, seed and every described data set",
     "Tests generate a handful of data sets with one seed.",
     ["skmine/datasets/_samples_generator.py", "skmine/datasets/utils.py"],
     [("transactions", "skmine/datasets/_samples_generator.py:make_transactions"), ("classes", "skmine/datasets/_samples_generator.py:make_classification"),
      ("descriptions", "skmine/datasets/utils.py:describe")],
     [],
     ["make_transactions", "make_classification", "describe", "describe_logs"],
     "runtime monitor: shape, statistics and reproducibility of generated data",
     "Exploration: six-sigma statistics for mean sizes, exact clauses for everything else.")

prop("C21", "Loaders return exactly what a file says, and the cache is transparent",
     """Loading a transaction file gives one transaction per line (empty for blank lines), in order, with its items in order, as integers or strings, whatever the separator, repeated or trailing separators
     or missing final newline; loading an event log gives every event with its date or integer timestamp, in the order of the file, whatever the events are spelt like; loading lifelogging dumps gives each user's events at their minutes and loading
     a graph file its labelled vertices and edges.
     Fetching a named data set downloads it once from its own address, later calls read the cached copy and give identical data, labels are separated from items exactly, only the cache folder requested is
     written, and files loaded are never modified.
     A refused or interrupted download or an unreadable file raises and leaves nothing that a later call would take for the data.""",
     ["inputs", "histories", "fault_sequences"],
     "every file content, separator, cache folder, sequence of calls and failed download",
     "Tests of downloads need the network and cover one file each; interrupted downloads and unusual files are not sampled.",
     ["skmine/datasets/fimi.py", "skmine/datasets/periodic.py", "skmine/datasets/_base.py"],
     [("transaction files", "skmine/datasets/fimi.py:fetch_file"), ("named data sets", "skmine/datasets/fimi.py:fetch_any"), ("event logs", "skmine/datasets/periodic.py:fetch_file"),
      ("cache folder", "skmine/datasets/_base.py:get_data_home")],
     [("cache folder", "downloaded data sets", "skmine/datasets/_base.py")],
     ["fimi.fetch_file", "fimi.fetch_any", "fimi.fetch_*", "periodic.fetch_file", "fetch_health_app", "fetch_canadian_tv", "get_data_home"],
     "runtime monitor: recorded requests of a web stand-in and round trips of generated files",
     "Exploration: generated files, in-process server stand-in counting requests and injecting failures.")

prop("C22", "Set, row and clique helpers are exact; validation refuses exactly the invalid",
     """Filtering a family of sets keeps exactly its maximal or minimal members, sorted by size; the common rows of two arrays are found exactly once, sorted, with the index of their first occurrences;
     sliding windows show every window of an array read-only; and clique enumeration reports every maximal clique of at least three nodes of an undirected graph exactly once: none of them changes its input.
     Minimum supports, growth rates, seeds and numeric tables are accepted exactly when they lie in the documented domain and are otherwise refused with a value or type error, leaving global options as they were.
     The checked table holds the same values as the one given.""",
     ["inputs"],
     "every family of sets, pair of row arrays, array and window, undirected graph, and parameter value",
     "Tests use one or two inputs per helper.",
     ["skmine/utils.py", "skmine/emerging/mbdldorber.py"],
     [("maximal and minimal sets", "skmine/utils.py:filter_maximal"), ("rows", "skmine/utils.py:intersect2d"), ("windows", "skmine/utils.py:sliding_window_view"),
      ("cliques", "skmine/utils.py:bron_kerbosch"), ("validation", "skmine/utils.py:_check_min_supp")],
     [],
     ["filter_maximal", "filter_minimal", "intersect2d", "sliding_window_view", "bron_kerbosch", "bron_kerbosch_pivot", "LCM.fit", "MBDLLBorder"],
     "runtime monitor: brute-force definitions on both sides of every bound",
     "Exploration: definitions evaluated exhaustively on random small inputs.")

prop("C23", "Estimators are values: parameters, copies and pickles keep them; no side effects",
     """Every estimator gives back the parameters it was built with, before and after fitting; cloning, copying, deep copying and pickling preserve its type and all its parameters, and a fitted estimator
     that is pickled or deep copied answers as the original, independently of it.
     Used before fitting it refuses with an error; fitting returns the estimator, fitting and reading leave the data, the parameter objects, the random states, options, environment, warning filters and files
     of the process as they were, and reading twice gives the same answer.
     Fitting again, also after a failed fit, on other data or on the same objects changed in place, gives what a new estimator gives, a fitted one is not affected by later changes of the data it was given, and combined fit methods equal the separate ones.""",
     ["inputs", "configurations", "histories"],
     "each estimator of the package, every parameter setting, data set and sequence of fits",
     "Tests check parameters of one or two estimators; copies of fitted estimators, failed fits and process state are never looked at.",
     ["skmine/base.py", "skmine/itemsets/lcm.py", "skmine/itemsets/slim.py", "skmine/itemsets/slim_classifier.py", "skmine/feature_extraction/slim_vectorizer.py", "skmine/periodic/cycles.py",
      "skmine/emerging/mbdldorber.py", "skmine/preprocessing/mdlp_discretizer.py", "skmine/graph/graphmdl/graph_mdl.py"],
     [("base classes", "skmine/base.py"), ("copies", "skmine/itemsets/slim.py:SLIM.__copy__")],
     [("parameters", "constructor arguments", "skmine/base.py")],
     ["get_params", "set_params", "sklearn.base.clone", "copy", "deepcopy", "pickle", "fit", "fit_transform", "fit_discover"],
     "runtime monitor: state snapshots around every call, equality of answers of copies",
     "Exploration: snapshots of data, parameters and process state around each call, for nine estimators.")

prop("C24", "Independent estimators never influence each other, interleaved or in threads",
     """An estimator answers as if it were alone in the process: whatever other estimators of the same or another kind are constructed, configured, fitted, read or refitted in between, its answers are
     those it gives alone.
     The same holds when each estimator is used by a thread of its own, under every schedule of the threads.""",
     ["schedules", "histories", "inputs"],
     "every set of estimators, every interleaving of their operations and every schedule of threads using one estimator each",
     "Tests never have two estimators active at once, nor threads.",
     ["skmine/base.py", "skmine/utils.py", "skmine/itemsets/lcm.py", "skmine/itemsets/slim.py", "skmine/periodic/cycles.py", "skmine/periodic/pattern.py", "skmine/graph/graphmdl/graph_mdl.py"],
     [("estimators", "skmine/base.py"), ("validation", "skmine/utils.py"), ("periodic state", "skmine/periodic/data_sequence.py")],
     [("class and module attributes", "anything shared between instances", "skmine/periodic/pattern.py")],
     ["fit", "transform", "discover", "predict"],
     "runtime monitor: answers under random interleavings and injected thread switches vs alone",
     "Exploration: schedule perturbation (microsecond switch interval, yields injected at calls); distinct observed schedules are counted.")

prop("C25", "Results depend on the data, not on its presentation or on the run",
     """Permuting the transactions, permuting or repeating items within a transaction, renaming items or labels in the same order, or giving the database in another container or as a binary table leads the itemset
     miner, the classifier and the vectorizer to the same code table, sizes, predictions and features up to that change.
     Permuting or repeating the entries of an event log, shifting or rescaling its timestamps, writing them as dates or renaming events in the same order leads to the same periodic patterns and residuals up to that change.
     The same data and parameters give the same results in every run of the program, whatever the seed of string hashing.""",
     ["inputs", "configurations"],
     "every database or log and every change of presentation; graph compression is excluded",
     "Tests run each miner on one presentation in one process.",
     ["skmine/itemsets/slim.py", "skmine/itemsets/slim_classifier.py", "skmine/feature_extraction/slim_vectorizer.py", "skmine/periodic/cycles.py", "skmine/periodic/data_sequence.py", "skmine/itemsets/lcm.py"],
     [("candidate order", "skmine/itemsets/slim.py:SLIM.generate_candidates"), ("pattern selection", "skmine/periodic/run_mine.py"), ("log input", "skmine/periodic/cycles.py:PeriodicPatternMiner.fit")],
     [],
     ["SLIM.fit", "SLIM.transform", "SlimClassifier.predict", "SLIMVectorizer.transform", "PeriodicPatternMiner.transform", "LCM.transform"],
     "runtime monitor: metamorphic comparison of presentations and of processes with other hash seeds",
     "Exploration: metamorphic relations; fresh interpreters with several hash seeds.")
