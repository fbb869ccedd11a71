"""What each check explores: generator modules and how many behaviours of each."""


def g(mod, fam, quick, thorough=None, **kw):
    d = dict(mod=mod, fam=fam, quick=quick, thorough=thorough or quick * 2, **kw)
    return d


K = "RapConcur"
M = "RapSmall"


def small(*fams):
    """Small scopes, exhaustively."""
    return [g(M, f, 0, bfs=True) for f in fams]


def sizes(*fams):
    """Every size, in one respect at a time."""
    return [g("RapSizes", f, 0, bfs=True) for f in fams]


def values(*fams):
    """Every value, in one respect at a time."""
    return [g("RapValues", f, 0, bfs=True) for f in fams]


S, L, F, V, T = "RapSession", "RapLayout", "RapFaults", "RapV1Gen", "RapToolsGen"
# the design of the corrected techniques, model checked; it gives no behaviours to replay
DRIFT = [g("RapDrift", "", 0, bfs=True, silent=True)]
BASE = ["TLC and its Java runtime evaluate the specification correctly",
        "the harness projects recordings faithfully through the public accessors of the library"]

PLAN = {
    "C01": dict(gen=[g(S, "tree", 250), g(S, "other", 150), g(S, "dict", 60), g(S, "meta", 60), g(S, "bulk", 80)] + small("shapes") + sizes("sizes", "giants", "giantcounts") + values("texts", "ints")),
    "C02": dict(gen=[g(S, "dict", 350), g(S, "tree", 80), g(S, "bulkdict", 100)] + small("dicts") + sizes("sizes", "giants", "agains") + values("textkeys")),
    "C03": dict(gen=[g(S, "meta", 350), g(S, "bulkmeta", 100)] + small("metas") + sizes("lengths", "giants", "giantarrays", "againkeys") + values("texts", "ints", "floats")),
    "C04": dict(gen=[g(S, "exact", 350)] + small("edges") + sizes("counts", "giantcounts") + values("floats")),
    "C05": dict(gen=[g(S, "lossy", 350), g(S, "walk", 150), g(S, "drift", 40)] + small("grids") + sizes("counts", "spikes") + values("lossyfloats") + DRIFT),
    "C06": dict(gen=[g(S, "times", 350), g(S, "walk", 100), g(S, "drift", 40)] + small("gaps") + sizes("counts", "giantcounts", "spikes") + values("timefloats", "floats") + DRIFT),
    "C07": dict(gen=[g(L, "layout", 300), g(S, "layout", 150), g(S, "bulkbytes", 60)] + small("subst", "versions") + sizes("bytesizes") + values("textbytes", "intbytes")),
    "C08": dict(gen=[g(S, "slice", 400), g(S, "other", 100)] + small("slices") + sizes("sizes", "slicesizes") + values("texts", "floats", "timepairs")),
    "C09": dict(gen=[g(S, "valid", 500)] + small("valids") + sizes("validsizes") + values("floats", "timepairs")),
    "C10": dict(gen=[g(F, "sinkfails", 250), g(F, "bulksinkfails", 50), g(F, "binfails", 80)] + small("refusals") + sizes("refusalsizes")),
    "C11": dict(gen=[g(F, "cuts", 250), g(V, "v1cuts", 100), g(F, "bulkcuts", 50)] + small("allcuts") + sizes("cutsizes", "giantcuts")),
    "C12": dict(gen=[g(F, "dels", 200), g(F, "srcfails", 120), g(V, "v1dels", 100), g(V, "v1srcfails", 60), g(F, "bulkdels", 60), g(F, "bulksrcfails", 40)] + small("pieces", "allcuts") + sizes("cutsizes", "delsizes", "giantdels", "giantcuts")),
    "C13": dict(gen=[g(S, "count", 250), g(L, "layout", 120), g(V, "v1", 100), g(S, "bulk", 60)] + small("shapes") + sizes("sizes", "v1sizes", "giants") + values("textkeys", "floats")),
    "C14": dict(gen=[g(F, "nego", 500), g(F, "mixed", 150)] + small("negos", "misfits", "versions") + sizes("misfitsizes")),
    "C15": dict(gen=[g(F, "reject", 600)] + small("holes") + sizes("holesizes")),
    "C16": dict(gen=[g(V, "v1", 600), g(V, "v1muts", 100), g(V, "v1cuts", 40), g(V, "v1bulk", 60)] + small("v1parts") + sizes("v1sizes", "giantv1") + values("v1texts", "v1ints", "v1floats")),
    "C17": dict(gen=[g(T, "json", 350), g(T, "jsonbad", 450), g(T, "jsoncuts", 60), g(T, "bulkjson", 50)] + small("docs") + sizes("docsizes", "giantdocs") + values("doctexts", "docfloats", "metafloats", "shapes", "mixes", "docmodes"), cli=True),
    "C18": dict(gen=[g(T, "trip", 500), g(T, "export", 350), g(V, "v1cli", 60), g(T, "bulkfile", 30)] + small("trips") + sizes("triplengths", "tripkeys", "filesizes", "giantfiles") + values("triptexts", "tripints", "tripfloats", "tripshapes", "textfiles"), cli=True),
    "C19": dict(gen=[g(T, "csv", 700), g(T, "bulkcsv", 50)] + small("tables") + sizes("rowsizes", "giantrows") + values("csvtexts", "csvfloats"), cli=True),
    "C23": dict(gen=[g(T, "bson", 600)] + small("bsons") + sizes("bsonlengths", "bsonkeys") + values("bsontexts", "bsonints", "bsonfloats")),
    "C22": dict(gen=[g(T, "upgrade", 200), g(T, "summary", 200), g(V, "v1cli", 150), g(L, "layoutcli", 120),
                     g(T, "jsonbad", 150), g(T, "json", 60), g(T, "csv", 80), g(T, "export", 60), g(T, "bulkfile", 40)] + small("sums") + sizes("filesizes", "giantfiles") + values("textfiles", "textnames", "docmodes"), cli=True),
    "C20": dict(gen=[g(S, "other", 300), g(F, "nego", 150), g(S, "bulk", 40), g(K, "turns", 200), g(K, "outlet", 150),
                     g(K, "switch", 0, bfs=True), g(K, "free", 200, race=True), g(K, "techs", 0, bfs=True, race=True), g(K, "outlet", 40, race=True)]),
    "C21": dict(gen=[g(F, "muts", 150), g(L, "defect", 250), g(F, "nego", 150)] + small("subst")),
}
for p in PLAN.values():
    p.setdefault("level", "model_checking")
    p.setdefault("rounds", 8)
    p.setdefault("assumes", BASE)

NOT_APPLICABLE = {}
