"""Which suites of histories and which model-checking configurations decide which property."""

FIELD = ("MCField.tla", "MCField.cfg", "MCFieldFull.cfg")
ALGEBRA = ("MCAlgebra.tla", "MCAlgebra.cfg", "MCAlgebraFull.cfg")
BILINEAR = ("MCBilinear.tla", "MCBilinear.cfg", "MCBilinearFull.cfg")
TABLES = ("MCTables.tla", "MCTables.cfg", "MCTablesFull.cfg")
HEAP = ("MCHeap.tla", "MCHeap.cfg", "MCHeapFull.cfg")


def DESIGN(k):
    return ("MCDesign.tla", "MCDesign%s.cfg" % k, "MCDesign%sFull.cfg" % k)


# property -> (suites, models)
PROPS = {
    "P01": (["fields"], [FIELD]),
    "P02": (["conversion"], [HEAP]),
    "P03": (["structure"], [HEAP, ALGEBRA]),
    "P04": (["rowcol"], [HEAP]),
    "P05": (["windows"], [HEAP]),
    "P06": (["linear"], [FIELD]),
    "P07": (["mul"], [ALGEBRA, DESIGN("Mul")]),
    "P08": (["addmul"], [ALGEBRA, DESIGN("Add")]),
    "P09": (["echelon"], [ALGEBRA, DESIGN("Ech")]),
    "P10": (["ple"], [ALGEBRA, DESIGN("Ple")]),
    "P11": (["trsm"], [ALGEBRA, DESIGN("Trsm")]),
    "P12": (["inverse"], [ALGEBRA, DESIGN("Inv")]),
    "P13": (["bilinear"], [BILINEAR]),
    "P14": (["refuse"], []),
    "P15": (["compare"], []),
    "P16": (["tables"], [TABLES]),
    "P17": (["memory"], []),
    "P18": (["walks", "again"], [HEAP, ALGEBRA]),
}


def models(prop, tier):
    """[(module, configuration)]"""
    return [(m, full if tier == "thorough" else quick) for m, quick, full in PROPS[prop][1]]
