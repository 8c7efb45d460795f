"""Which properties have a check: id -> (technique, level note)."""
T = "TLA+/TLC: exhaustive model checking of {m}, behaviours replayed into the real code, recorded traces validated by TLC against {t}"
CLAIMED = {
    "P01": (T.format(m="LCM.tla (DFS of the prefix-preserving closure)", t="ItemsetTrace.tla"),
            "design: all databases of the small scope; implementation: all of them replayed plus seeded larger ones"),
    "P02": (T.format(m="LCM.tla", t="ItemsetTrace.tla"), "as P01, maximal itemsets"),
    "P03": (T.format(m="LCM.tla", t="ItemsetTrace.tla"), "option product on replayed and seeded databases, file system effects recorded"),
    "P04": (T.format(m="Slim.tla", t="SlimTrace.tla"), "histories of fit/insert/evaluate"),
    "P05": (T.format(m="Slim.tla", t="SlimTrace.tla"), "histories of fit/insert/evaluate"),
    "P06": (T.format(m="Slim.tla", t="SlimTrace.tla"), "histories; code lengths in 1/65536 bit from the Log2.tla table"),
    "P07": (T.format(m="SlimEncode.tla", t="EncodeTrace.tla"), "histories of fit/insert/encode"),
    "P08": (T.format(m="SlimEncode.tla", t="EncodeTrace.tla"), "train/predict histories"),
    "P09": (T.format(m="SlimEncode.tla", t="EncodeTrace.tla"), "fit/transform histories"),
    "P10": (T.format(m="Mdlp.tla", t="MdlpTrace.tla"), "all small columns replayed plus seeded tables"),
    "P11": (T.format(m="Borders.tla", t="BordersTrace.tla"), "all small pairs of collections sampled and replayed, seeded larger ones"),
    "P12": (T.format(m="Periodic.tla", t="PeriodicTrace.tla"), "histories of fit/reconstruct/residuals on integer and datetime logs"),
    "P13": (T.format(m="Pattern.tla", t="PatternTrace.tla"), "all small building histories of trees, seeded deeper ones, mining pools"),
    "P14": (T.format(m="Periodic.tla", t="PeriodicTrace.tla"), "histories of fit/table/draw/export/import"),
    "P15": (T.format(m="TimeScale.tla", t="ScaleTrace.tla"), "small time sets laid on real units, seeded times up to 4e18"),
    "P16": (T.format(m="Periodic.tla", t="PeriodicTrace.tla"), "costs in 1/65536 bit from the Log2.tla table"),
    "P17": (T.format(m="Graph.tla", t="GraphTrace.tla"), "all small graphs and pattern lists, seeded graphs, multigraphs and table histories"),
    "P18": (T.format(m="GraphSearch.tla", t="GraphTrace.tla"), "fits under every stopping point of a fake clock; lengths in 1/65536 bit"),
    "P19": (T.format(m="Estimators.tla", t="EstimatorTrace.tla"), "histories on two miners of every kind; fresh miners in other processes as reference"),
    "P20": (T.format(m="Callbacks.tla", t="CallbackTrace.tla"), "all short histories of attachments and calls, seeded longer ones, real miners"),
    "P21": (T.format(m="Datasets.tla", t="DatasetTrace.tla"), "all short files, fetch histories and sharings, seeded larger ones"),
    "P22": (T.format(m="Helpers.tla", t="HelpersTrace.tla"), "all small families and graphs, seeded arrays"),
}
NOT_APPLICABLE = {}
