"""Single source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mechanism],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                             observe_at=observe, hook_needed=None))


LCM_F = "skmine/itemsets/lcm.py"
SLIM_F = "skmine/itemsets/slim.py"
PER = "skmine/periodic/"
GR = "skmine/graph/graphmdl/"

PROPS = [
    P("P01", "Closed itemset mining is exact",
      "For every transactional database and every absolute or relative minimum support, the closed-itemset miner "
      "returns each non-empty itemset that is frequent and closed (no larger itemset occurs in the same transactions) "
      "exactly once and returns nothing else. The support reported for each is the number of transactions containing "
      "it, and the transaction ids returned on request are exactly those transactions. The result is the same set "
      "whatever the container, the order or repetition of items inside a transaction, and the number of jobs.",
      ["inputs", "configurations", "schedules"],
      "all databases (any item type, empty transactions, repeated items/transactions), thresholds, n_jobs",
      "The tests compare a handful of tiny fixed databases; exactness quantifies over every database and threshold.",
      [LCM_F, "skmine/utils.py"],
      [("prefix-preserving closure extension over items ranked by frequency", LCM_F + ": LCM._inner"),
       ("frequency filter and renaming", LCM_F + ": LCM.fit")],
      ["return value of fit_transform / transform"],
      [("item_to_tids_", "tids of each frequent item by rank", LCM_F + ": LCM.fit")]),
    P("P02", "Maximal itemset mining is exact",
      "For every transactional database and minimum support, the maximal-itemset miner returns exactly the frequent "
      "itemsets that have no frequent proper superset, each exactly once, with its exact support and, on request, its "
      "exact transaction ids. Every frequent itemset is therefore contained in at least one returned itemset.",
      ["inputs", "configurations"],
      "all databases, thresholds and option combinations",
      "Tests check three fixed databases; completeness and the absence of non-maximal itemsets quantify over all.",
      [LCM_F, "skmine/utils.py"],
      [("childless pre-check", LCM_F + ": LCMMax._inner"), ("superset filter", "skmine/utils.py: filter_maximal")],
      ["return value of fit_transform / transform"]),
    P("P03", "Itemset output options only filter, format or relocate the result",
      "For both itemset miners, a maximum length returns exactly the itemsets of the unrestricted result that are not "
      "longer than it, the lexicographic option returns each itemset's items sorted, and asking for transaction ids "
      "adds them without changing itemsets or supports. Writing to a file produces exactly the itemsets, supports and "
      "transaction ids (when asked for) of the in-memory result, replacing any previous content of that file, leaving no "
      "temporary files behind and touching no other file.",
      ["inputs", "configurations", "histories"],
      "all databases, all option combinations, pre-existing output files, repeated calls on one miner",
      "Tests exercise one database per option and only check a file's head; the product of options is untested.",
      [LCM_F],
      [("length test before yield", LCM_F + ": LCM._inner"), ("root files concatenated", LCM_F + ": LCM.transform"),
       ("post filter and file writer", LCM_F + ": LCMMax.transform, write_df_tofile")],
      ["return values, written file, working directory"]),
    P("P04", "SLIM compression is lossless",
      "After fitting on any transactional or tabular binary dataset, and after any further sequence of interactive "
      "candidate insertions (including candidates already present or absent from the data), reconstructing from the "
      "model gives back the original dataset: the same number of transactions, in the same order, each with exactly "
      "its items in sorted order. Fitting the same model again on other data makes it reconstruct that other data.",
      ["inputs", "histories", "configurations"],
      "all datasets, pruning on/off, time budgets, sequences of prefit/update/fit",
      "Tests reconstruct two small datasets after a plain fit.",
      [SLIM_F],
      [("usage tids per itemset", SLIM_F + ": cover, SLIM.evaluate, SLIM.update"),
       ("union of itemsets over tids", SLIM_F + ": SLIM.reconstruct")],
      ["reconstruct()"], [("codetable_", "itemset -> tids it covers", SLIM_F)]),
    P("P05", "The SLIM code table is an exact ordered cover of the data",
      "At any time after fitting or inserting candidates, the code table keeps every item as a singleton, and in every "
      "transaction the itemsets used are pairwise disjoint and together make up exactly the transaction. Usage follows "
      "the standard cover order: an itemset contained in a transaction is left unused there only if it shares an item "
      "with a used itemset that is longer, or as long with at least its support. The table reported to the "
      "user (usages, transaction ids, with or without singletons or unused itemsets) is exactly that code table.",
      ["inputs", "histories", "configurations"],
      "all datasets, pruning on/off, histories of prefit/update/fit, all reporting options",
      "Tests compare a few fixed code tables; cover validity must hold for every dataset and history.",
      [SLIM_F],
      [("sequential intersection-and-subtract cover", SLIM_F + ": cover"),
       ("standard cover order", SLIM_F + ": SLIM._standard_cover_order, get_support"),
       ("table replacement", SLIM_F + ": SLIM.update, _prune"), ("report", SLIM_F + ": SLIM.transform")],
      ["transform(return_tids=True), codetable_"]),
    P("P06", "SLIM description lengths match the code table and never get worse",
      "The data size and model size a SLIM model reports are those of its current code table under the documented "
      "two-part code (usage-proportional code lengths; each used itemset also pays its items at singleton code "
      "lengths). Fitting only accepts changes that strictly shorten the total, so the fitted total never exceeds that "
      "of the singleton-only table; evaluating a candidate reports the sizes and usages of the table it would produce "
      "and changes nothing.",
      ["inputs", "histories", "configurations"],
      "all datasets, pruning on/off, every candidate, every accepted step",
      "Tests pin sizes for one or two datasets; monotonicity along every accepted step is never observed.",
      [SLIM_F],
      [("size computation", SLIM_F + ": SLIM._compute_sizes, prefit"), ("acceptance test", SLIM_F + ": SLIM.fit"),
       ("pruning", SLIM_F + ": SLIM._prune")],
      ["data_size_, model_size_, evaluate()"]),
    P("P07", "SLIM encodes unseen data with its learned table",
      "Covering new data with a fitted SLIM model marks, for every new transaction, disjoint known itemsets that "
      "together make up exactly its known items, chosen in the model's cover order; unknown items are ignored. The "
      "code length of a new transaction is the sum over its cover of the Laplace-corrected code lengths of the learned "
      "usages, and is infinite when nothing known is in it. Encoding is pure: it does not change the model, does not "
      "depend on the other new transactions, and is the same for transactional and tabular form.",
      ["inputs", "histories"],
      "all training and new datasets (unknown items, empty transactions), any order and batch of calls",
      "Tests cover two fixed pairs of datasets.",
      [SLIM_F],
      [("cover of unseen data", SLIM_F + ": SLIM.cover"), ("Laplace-corrected lengths", SLIM_F + ": SLIM.get_code_length"),
       ("score", SLIM_F + ": SLIM.decision_function")],
      ["cover(), get_code_length(), decision_function()"]),
    P("P08", "The SLIM classifier assigns the class whose model encodes best",
      "The classifier learns one compression model per class, from exactly the training transactions of that class, "
      "honouring its item-alphabet and pruning options. Every prediction is a training class whose own model gives "
      "the transaction its shortest code length among all classes; predictions are made row by row, so they do not "
      "depend on the other rows predicted with them or on the order in which training rows of different classes "
      "were interleaved.",
      ["inputs", "histories", "configurations"],
      "all labelled datasets, label types, options, prediction batches",
      "Tests check accuracy thresholds on a few datasets, which many wrong classifiers pass.",
      ["skmine/itemsets/slim_classifier.py", SLIM_F],
      [("per class split and fit", "skmine/itemsets/slim_classifier.py: SlimClassifier.fit"),
       ("arg max of scores", "skmine/itemsets/slim_classifier.py: SlimClassifier.predict")],
      ["predict(), classes_, models_"]),
    P("P09", "SLIM feature vectors mark the covering of the chosen patterns",
      "The SLIM feature extractor returns one row per new transaction and one column per selected learned itemset: the "
      "at most k itemsets of highest usage among those whose items all occur in the new data. A cell is non-zero exactly when "
      "that itemset is used to cover that transaction, taking the columns in order so that covering itemsets never overlap; "
      "it is one under the one-hot strategy and otherwise the itemset's relative usage, and stop items never take part.",
      ["inputs", "configurations"],
      "all training and new datasets, k, strategy, stop items, pruning",
      "Tests check shapes on one dataset.",
      ["skmine/feature_extraction/slim_vectorizer.py", SLIM_F],
      [("top-k cover", "skmine/feature_extraction/slim_vectorizer.py: SLIMVectorizer.transform"),
       ("stop items", "skmine/feature_extraction/slim_vectorizer.py: _filter_stop_items")],
      ["transform() result"]),
    P("P10", "Supervised discretisation cuts where labels change and bins monotonically",
      "Fitting the discretiser on any numeric table and integer labels yields, for each column, strictly increasing "
      "cut points, each the midpoint of two neighbouring sorted training values, forming exactly the recursive minimum-entropy "
      "partition in which every split passes the MDL acceptance test and no remaining interval has one that does. "
      "Transforming maps every value to the number of its own column's cut points strictly below it, so bins are ordered like values "
      "and depend neither on other rows nor on column order.",
      ["inputs", "histories", "configurations"],
      "all tables (array or DataFrame), labels, duplicated values, new data at/around the cut points, random_state",
      "Tests fit iris and compare a few cut points.",
      ["skmine/preprocessing/mdlp_discretizer.py"],
      [("best cut", "skmine/preprocessing/mdlp_discretizer.py: generate_cut_point"),
       ("MDL test", "skmine/preprocessing/mdlp_discretizer.py: MDLPVectDiscretizer.evaluate, fit"),
       ("binning", "skmine/preprocessing/mdlp_discretizer.py: MDLPDiscretizer.transform")],
      ["cut_points_, transform()"]),
    P("P11", "Emerging-pattern borders describe exactly the emerging itemsets",
      "For two labelled collections, the borders found describe exactly the itemsets whose support in the second "
      "collection reaches growth rate times the minimum support while their support in the first stays below the "
      "minimum support: an itemset is emerging if and only if some border's right side contains it and one of that "
      "border's left itemsets is contained in it. Enumeration lists exactly the emerging itemsets of at least the "
      "requested size that lie strictly between the two sides of a border.",
      ["inputs", "configurations"],
      "all pairs of collections, thresholds, growth rates, sizes",
      "Tests check one textbook border and only the type of the discovered patterns.",
      ["skmine/emerging/mbdldorber.py", "skmine/utils.py", LCM_F],
      [("border difference", "skmine/emerging/mbdldorber.py: border_diff, mbdllborder"),
       ("enumeration", "skmine/emerging/mbdldorber.py: borders_to_patterns, MBDLLBorder.discover")],
      ["borders_, discover()"]),
    P("P12", "Periodic mining is lossless",
      "After fitting the periodic miner on any event log, the events reconstructed from all patterns together with the "
      "residual events are exactly the distinct (time, event) pairs of the log, and no event is both residual and "
      "reconstructed. Reconstructing only some patterns gives a subset whose residuals are the complement in the log, and the "
      "sort and duplicate options change only order and repetition.",
      ["inputs", "histories", "configurations"],
      "all event logs (integer or datetime index, simultaneous events, repeated rows), simple or complex patterns, "
      "with or without automatic time scaling, all subsets of patterns",
      "Tests reconstruct three logs.",
      [PER + "cycles.py", PER + "pattern.py", PER + "pattern_collection.py", PER + "run_mine.py", PER + "data_sequence.py"],
      [("covered and uncovered events", PER + "pattern_collection.py: getUncoveredOccs"),
       ("reconstruction", PER + "cycles.py: reconstruct, get_residuals"),
       ("occurrence expansion with shift corrections", PER + "pattern.py: getCovSeq")],
      ["reconstruct(), get_residuals()"]),
    P("P13", "A periodic pattern denotes exactly its expanded occurrences",
      "Every pattern tree, however nested by repetition and concatenation, denotes as many occurrences as its repetition counts "
      "multiply and add up to, each at the start time plus the periods and inner distances along its path plus the accumulated shift "
      "corrections. Computing the corrections from any assignment of times to those occurrences and expanding again "
      "returns those times, and combining cycles into larger patterns or factorising a tree never changes the "
      "events covered.",
      ["inputs", "programs"],
      "all pattern trees, start times and correction sequences",
      "Tests expand a few fixed trees.",
      [PER + "pattern.py", PER + "candidate.py", PER + "run_mine.py"],
      [("expansion", PER + "pattern.py: getOccsStar, getOccs, getCovSeq"),
       ("inverse", PER + "pattern.py: computeEFromO"), ("factorisation", PER + "pattern.py: factorizeTree")],
      ["expanded occurrences"]),
    P("P14", "The periodic pattern table and pattern files describe the fitted patterns",
      "Each row of the pattern table gives the start time, period, repetition counts, event structure and corrections of one "
      "mined pattern in the user's time unit, so that expanding the row yields the events that pattern "
      "reconstructs. Exporting the patterns to a file and importing them into the same or a new miner restores the same "
      "table and the same reconstruction, and drawing a pattern shows the tree and start time of its row.",
      ["inputs", "histories", "configurations"],
      "all logs, index types, time scales, simple/complex mining, export/import histories",
      "Tests check one export/import and the table's columns.",
      [PER + "cycles.py", PER + "class_patterns.py", PER + "pattern.py"],
      [("table", PER + "cycles.py: transform"), ("files", PER + "cycles.py: export_patterns, import_patterns")],
      ["transform(), export_patterns(), import_patterns(), draw_pattern()"]),
    P("P15", "Automatic time scaling is exact and reversible",
      "Automatic scaling of a time index divides by a power of ten (integers) or by a whole time unit (datetimes) only when every index value is "
      "an exact multiple, so that multiplying back restores every timestamp exactly; it never merges two different "
      "times nor changes their order. Mining with scaling on or off therefore yields timestamps that all occur in "
      "the input log.",
      ["inputs", "configurations"],
      "all integer and datetime indexes, mixed granularities, dates before 1970",
      "Tests use two hand-made indexes.",
      [PER + "cycles.py"],
      [("unit choice", PER + "cycles.py: autoscale_time_unit, shift_from_sec_to_upper_unit, _remove_zeros")],
      ["timestamps of transform(), reconstruct(), get_residuals()"]),
    P("P16", "Periodic mining never costs more than listing the events",
      "The cost reported for the mined pattern collection is the sum of the costs of its patterns plus the cost of "
      "listing the residual events one by one, and never exceeds the cost of listing all events one by one. Every "
      "selected pattern covers at least one event that no earlier selected one covers, and reported code lengths are positive and equal to "
      "the sum of their documented parts.",
      ["inputs", "configurations"],
      "all logs, simple/complex mining",
      "Tests check one total.",
      [PER + "pattern_collection.py", PER + "pattern.py", PER + "run_mine.py"],
      [("cost", PER + "pattern_collection.py: codeLength"), ("greedy selection", PER + "run_mine.py")],
      ["costs of patterns and collection"]),
    P("P17", "A graph code table describes every edge once and every label, without loss",
      "After fitting the graph miner, and for any code table of connected patterns built on a labelled directed graph or multigraph, "
      "the pattern embeddings used by the cover are true occurrences of the pattern in the data graph, every edge of the data graph is described "
      "exactly once, by one pattern embedding or by one singleton, and every vertex label is described, by one singleton exactly when "
      "no pattern embedding describes it. Patterns are used in table order wherever they still apply. The occurrences reported for each "
      "pattern, singleton and port are those of the embeddings used, and a vertex described by several embeddings is a port (and listed as one) of each of them, "
      "so the data graph can be rebuilt from the rewritten graph.",
      ["inputs", "configurations"],
      "all labelled directed graphs and multigraphs (one string label per edge, distinct on parallel edges; string or tuple of string "
      "labels on vertices), all lists of connected patterns, added, removed and covered in any order",
      "Tests check one running example.",
      [GR + "code_table.py", GR + "utils.py", GR + "code_table_row.py", GR + "candidate.py", GR + "graph_mdl.py"],
      [("cover marking", GR + "code_table.py: cover, row_cover, singleton_cover"),
       ("ports", GR + "code_table.py: search_port, create_pattern_node"),
       ("embeddings", GR + "utils.py: get_embeddings"), ("merged candidates", GR + "candidate.py: merge_candidate")],
      ["rewritten graph, row usages"]),
    P("P18", "Graph mining terminates and never lengthens the description",
      "Fitting the graph miner on any labelled directed graph terminates, with or without a time budget and wherever the budget runs out "
      "(one that never does changes nothing), and its final description length never exceeds the initial one of the singleton-only table. The description length reported is the sum "
      "of the lengths of the used rows and singletons of the returned table and of the rewritten graph, each the length its formula gives, and a candidate is kept "
      "exactly when it strictly shortens the total, so no table evaluated is shorter than the one returned. The patterns listed are "
      "the used patterns and singletons of that table, and the table displayed states their usages and code lengths.",
      ["inputs", "schedules", "configurations"],
      "all labelled directed graphs and multigraphs, all points at which a time budget may run out",
      "Tests fit two small graphs.",
      [GR + "graph_mdl.py", GR + "code_table.py", GR + "code_table_row.py", GR + "label_codes.py", GR + "utils.py"],
      [("search loop", GR + "graph_mdl.py: fit, _anytime_graph_mdl_with_timeout, _pruning"),
       ("lengths", GR + "code_table.py: compute_total_description_length, compute_rewritten_graph_description; " + GR + "utils.py: encode, prequential_code")],
      ["description_length(), initial_description_length(), patterns()"]),
    P("P19", "Miners carry no state between fits and never alter their inputs",
      "For every miner, fitting again on other data gives the same results as a fresh miner with the same parameters "
      "fitted on that data, whatever was fitted, transformed, covered or exported before, and two miners never influence each "
      "other. No operation modifies the data, labels or parameters handed to it or global library settings, transforming "
      "twice gives the same answer, in every process (whatever the seed of string hashes); a deep or pickled copy of a miner answers like its original, "
      "a plain copy of a SLIM miner or a clone is not fitted and has the same parameters (answers between set_params or a failed fit and the next fit are not specified), and parameters are returned and set exactly as given, unknown ones being rejected.",
      ["histories", "inputs"],
      "all sequences of fit/transform/other calls on shared or separate miners",
      "Tests fit each miner once per instance.",
      [LCM_F, SLIM_F, "skmine/itemsets/slim_classifier.py", PER + "cycles.py", "skmine/preprocessing/mdlp_discretizer.py",
       "skmine/emerging/mbdldorber.py", "skmine/feature_extraction/slim_vectorizer.py", GR + "graph_mdl.py", "skmine/base.py", "skmine/utils.py"],
      [("state rebuilt by fit", "each estimator's fit"), ("parameters", "skmine/base.py: get_params, set_params")],
      ["results of fit/transform sequences"]),
    P("P20", "Callbacks run once after their method and do not affect it",
      "Attaching callbacks to a miner makes each callback run exactly once after every completed call of the method it "
      "is named after, receiving that call's result (and the miner when it has a parameter named self; a callback with several parameters "
      "gets the parts of the result), in the order they were attached, while the method gets the same arguments, returns the same "
      "result and raises the same errors as before. An error of a callback reaches the caller and keeps those attached after it from running. Several callbacks do not disturb each other, other miners are "
      "unaffected, and non-callable values, unknown methods, callbacks that assign to the miner and later changes to a callback collection are "
      "rejected without touching the miner.",
      ["inputs", "histories"],
      "all sequences of attach/call on miners, all callback signatures",
      "Tests check one callback per form.",
      ["skmine/callbacks.py"],
      [("method wrapping", "skmine/callbacks.py: post, CallBacks.__call__"), ("validation", "skmine/callbacks.py: CallBacks._check")],
      ["recorded callback invocations, results"]),
    P("P21", "Dataset generators and readers produce the data they promise",
      "Generated transactions have the requested number of rows, only items of the requested alphabet, no repeated item "
      "within a row and a mean size matching the requested density; generated classification data have the requested sizes and labels, and the same seed always "
      "gives the same data. Reading a transactional or event-log file (without blank lines) yields exactly its lines, in order, as items or time-stamped "
      "events; times are integers when the whole first column is and dates otherwise; labels asked for separately are those of the same rows. "
      "A downloadable dataset is fetched at most once and read from its folder afterwards with the same result, and the dataset summary states the true counts.",
      ["inputs", "configurations"],
      "all sizes, densities, seeds, file contents",
      "Tests check one configuration each.",
      ["skmine/datasets/_samples_generator.py", "skmine/datasets/fimi.py", "skmine/datasets/periodic.py", "skmine/datasets/utils.py"],
      [("generators", "skmine/datasets/_samples_generator.py"), ("readers", "skmine/datasets/fimi.py, periodic.py: fetch_file"),
       ("summary", "skmine/datasets/utils.py: describe")],
      ["returned data"]),
    P("P22", "Set and array helpers compute what they name",
      "The filters for maximal and minimal itemsets keep exactly the itemsets of the input with no proper superset, "
      "respectively subset, in it; the clique enumerator yields each maximal clique of at least three nodes of the graph "
      "exactly once; the two-dimensional intersection returns exactly the sorted distinct common rows with the index of their first "
      "occurrences; and the sliding-window view shows exactly every contiguous window.",
      ["inputs"],
      "all families of sets, all graphs, all arrays and window shapes",
      "Tests use one or two instances each.",
      ["skmine/utils.py"],
      [("filters", "skmine/utils.py: filter_maximal, filter_minimal"), ("cliques", "skmine/utils.py: bron_kerbosch"),
       ("rows", "skmine/utils.py: intersect2d"), ("windows", "skmine/utils.py: sliding_window_view")],
      ["return values"]),
]

# ids claimed (a check exists); the others go to not_applicable until built
CLAIMED = {}

NOT_APPLICABLE = {}


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    try:
        from claims import CLAIMED, NOT_APPLICABLE
    except ImportError:
        CLAIMED, NOT_APPLICABLE = {}, {}
    for p in PROPS:
        i = p["id"]
        if i in CLAIMED:
            tech, note = CLAIMED[i]
            checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python harness/check.py {i} --tier quick",
                               thorough_cmd=f"/opt/venv/bin/python harness/check.py {i} --tier thorough",
                               evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                   notes="TLA+ (TLC). One runner, harness/check.py; specs in spec/. No hooks in /repo are needed."),
              open(f"{V}/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
