"""Model-checking runs shared by checks."""
from . import tlc


def program_design(c, deep=False, bugs=True):
    """Explores the program design; returns the histories it prints. Deviations must be rejected."""
    r = tlc.run("MC_Program", "MC_Program_deep" if deep else "MC_Program", timeout=600)
    c.model("program design", r, "all histories of up to %d requests" % (3 if deep else 2))
    if bugs:
        b = tlc.run("MC_Program", "MC_Program_bugs", timeout=600)
        found = {}
        for rec in b.records:
            found.setdefault(rec["bug"], set()).update(rec["bad"])
        names = ["nolift", "diagonal", "lowside", "deeprapid", "plungefeed", "nochange", "needless", "nostop", "nohome", "nopause",
                 "stalespeed", "keepcool", "nocool", "wrongtool", "forget", "latemodes", "modechange", "afterend", "nospindle",
                 "doubleg", "order"]
        missed = [n for n in names if n not in found]
        if missed:
            raise RuntimeError(f"the clauses do not reject {missed}")
        c.model("deviations from the program design", b, f"{len(names)} deviations rejected")
    return [x for x in r.records if x["kind"] == "hist"]


def pocket_design(c):
    """Explores the pocket design; returns the requests it prints."""
    r = tlc.run("MC_Pocket", "MC_Pocket")
    c.model("pocket design", r, "all requests of up to 2 areas and an avoid area on 3 cells")
    if not c.quick:
        d = tlc.run("MC_Pocket", "MC_Pocket_deep")
        c.model("pocket design, 4 cells, 3 areas", d)
    b = tlc.run("MC_Pocket", "MC_Pocket_bugs")
    reject(c, b, "pocket design", ["avoiddeep", "avoidstrict", "noavoid", "nostart", "skiplast", "onepart", "suboverlap", "deepfirst"])
    geometry(c)
    return [x for x in r.records if x["kind"] == "req"]


def reject(c, result, what, names):
    """Every named deviation must have been rejected by some clause"""
    found = {x["bug"] for x in result.records if "bug" in x}
    missed = [n for n in names if n not in found]
    if missed:
        raise RuntimeError(f"the clauses do not reject {missed}")
    c.model(f"deviations from the {what}", result, f"{len(names)} deviations rejected")


def geometry(c):
    """Laws of the geometry, evaluated by TLC and by the Java evaluators with equal results"""
    import hashlib

    sums = []
    for java in (True, False):
        r = tlc.run("MC_Geo", "MC_Geo" if not c.quick else "MC_Geo_small", java=java)
        lines = sorted(x for x in r.out.splitlines() if x.startswith('"{'))
        if not lines:
            raise RuntimeError("no geometry")
        sums.append(hashlib.sha256("\n".join(lines).encode()).hexdigest())
    if sums[0] != sums[1]:
        raise RuntimeError("java/Geo.java differs from Geo.tla")
    c.model("plane geometry", r, "TLC and java/Geo.java agree on every value")


def profile_design(c):
    """Explores the profile design; returns the requests it prints."""
    r = tlc.run("MC_Profile", "MC_Profile")
    c.model("profile design", r, "all requests of up to 2 squares with holes, 4 offsets, 4 stepdowns, 11 tab settings")
    if not c.quick:
        c.model("profile design, more depths and stepdowns", tlc.run("MC_Profile", "MC_Profile_deep"))
    b = tlc.run("MC_Profile", "MC_Profile_bugs")
    reject(c, b, "profile design", ["single", "nolast", "overlast", "upwards", "narrow", "wide", "notabs", "fewer", "more", "shifted", "nowrap",
                                    "oneedge", "abovetabs", "finaltabs", "open", "lowtabs", "reversed", "dropped", "otherside", "closer", "perlayer"])
    return [x for x in r.records if x["kind"] == "req"]


def drill_design(c):
    """Explores the drilling design; returns the requests it prints."""
    r = tlc.run("MC_Drill", "MC_Drill")
    c.model("drilling design", r, "all selections of up to 3 holes on a 3x3 grid")
    if not c.quick:
        c.model("drilling design, 4 holes", tlc.run("MC_Drill", "MC_Drill_deep"))
    b = tlc.run("MC_Drill", "MC_Drill_bugs")
    reject(c, b, "drilling design", ["nolift", "farthest", "nearorigin", "asselected", "forget", "beside", "diagonal", "deeprapid", "signed", "shallow",
                                     "twice", "dropslast"])
    return [x for x in r.records if x["kind"] == "req"]


def surface_design(c):
    """Explores the surfacing design; returns the surfaces it prints."""
    r = tlc.run("MC_Surface", "MC_Surface")
    c.model("surfacing design", r, "all heights of a row of 4 positions")
    if not c.quick:
        c.model("surfacing design, 5 positions", tlc.run("MC_Surface", "MC_Surface_deep"))
    b = tlc.run("MC_Surface", "MC_Surface_bugs")
    reject(c, b, "surfacing design", ["skipfirst", "nofinal", "bigstep", "upwards", "bridge", "gouge", "lowtravel", "early"])
    return [x for x in r.records if x["kind"] == "req"]


def fluent_design(c):
    """Explores the fluent design; returns the histories it prints."""
    r = tlc.run("MC_Fluent", "MC_Fluent")
    c.model("jobs as values", r, "all histories of 3 requests on any of the jobs so far")
    if not c.quick:
        c.model("jobs as values, 4 requests", tlc.run("MC_Fluent", "MC_Fluent_deep"))
    b = tlc.run("MC_Fluent", "MC_Fluent_bugs")
    reject(c, b, "fluent design", ["counter", "tabstate", "cache", "sharelist", "shareupdate", "sharechange", "drops", "forgetfeed", "inplace",
                                   "inplacesame", "inplacerefused", "listrefused"])
    return [x for x in r.records if x["kind"] == "hist"]


def tree_design(c):
    """Explores trees of contours; returns the histories it prints."""
    r = tlc.run("MC_Tree", "MC_Tree")
    c.model("contour trees", r, "all histories of 4 branchings and closings")
    if not c.quick:
        c.model("contour trees, 5 steps", tlc.run("MC_Tree", "MC_Tree_deep"))
    b = tlc.run("MC_Tree", "MC_Tree_bugs")
    reject(c, b, "contour trees", ["lockedoffer", "parentoffer", "firstonly", "shortest", "anyorder", "again", "outin", "noroot", "dropshort"])
    return [x for x in r.records if x["kind"] == "hist"]


def zigzag_design(c):
    """Explores boundary walks and fillings; returns the boundaries and the regions it prints."""
    r = tlc.run("MC_Zigzag", "MC_Zigzag")
    c.model("boundary walks", r, "all rings of 6 points, 4 of them linked in every order, all queries")
    if not c.quick:
        c.model("boundary walks, rings of 10 points", tlc.run("MC_Zigzag", "MC_Zigzag_deep"))
    r3 = tlc.run("MC_Zigzag", "MC_Zigzag3")
    c.model("boundary walks, 3 linked points", r3, "all rings of 8 points")
    b = tlc.run("MC_Zigzag", "MC_Zigzag_bugs")
    b.records += tlc.run("MC_Zigzag", "MC_Zigzag_bugs3").records
    reject(c, b, "boundary walks", ["unsorted", "lastnone", "nonone", "usedend", "passes", "chord", "shortwalk", "stopsearly", "keepsend"])
    f = tlc.run("MC_Zigzag", "MC_Zigzag_fill")
    c.model("fillings", f, "8 regions")
    b = tlc.run("MC_Zigzag", "MC_Zigzag_fillbugs")
    reject(c, b, "fillings", ["bridge", "skiprow", "wide", "uneven", "onepiece", "norestart", "shortcut", "twice", "overrun"])
    return [x for x in r.records + r3.records if x["kind"] == "ring"], [x for x in f.records if x["kind"] == "region"]


def preview_design(c):
    """Explores previews; returns the jobs it prints."""
    r = tlc.run("MC_Preview", "MC_Preview")
    c.model("previews", r, "all jobs of up to 4 commands in one or two operations on 24 planes")
    if not c.quick:
        c.model("previews, 5 commands", tlc.run("MC_Preview", "MC_Preview_deep"))
    b = tlc.run("MC_Preview", "MC_Preview_bugs")
    reject(c, b, "previews", ["inverse", "unplaced", "unturned", "notmoved", "chord", "otherway", "zeroz", "stops", "norapids", "noplunge", "once",
                              "retract", "nofirst", "reverse", "lastop", "late", "flatfirst"])
    seen, out = set(), []
    for x in r.records:
        if x["kind"] == "job":
            k = repr(x["ops"])
            if k not in seen:
                seen.add(k)
                out.append([op for op in x["ops"] if op])
    return out


def placement_design(c):
    """Explores placements; returns the requests it prints."""
    same = []
    for java in (True, False):
        r = tlc.run("MC_PlaceGeo", java=java)
        same.append(sorted(x for x in r.out.splitlines() if x.startswith('"{')))
    if same[0] != same[1] or not same[0]:
        raise RuntimeError("java/Placement.java differs from Placement.tla")
    c.model("distances in space", r, "TLC and java/Placement.java agree on every value")
    r = tlc.run("MC_Placement", "MC_Placement")
    c.model("placements", r, "parts of up to 2 features, 48 planes, 3 ways of building")
    if not c.quick:
        c.model("placements, 3 features", tlc.run("MC_Placement", "MC_Placement_deep"))
    b = tlc.run("MC_Placement", "MC_Placement_bugs")
    reject(c, b, "placements", ["nolocation", "onelocation", "locatedtwice", "world", "unturned", "notmoved", "inverse", "worldz", "upside", "heightless",
                                "worldside", "worldtilt", "worldlevel", "worldorder", "worlddedupe", "worldfeed"])
    return [x for x in r.records if x["kind"] == "req"]


def request_design(c):
    """Explores requests; returns the histories it prints."""
    r = tlc.run("MC_Requests", "MC_Requests")
    c.model("requests", r, "all requests, first or after one of five others")
    if not c.quick:
        c.model("requests after two others", tlc.run("MC_Requests", "MC_Requests_deep"))
    b = tlc.run("MC_Requests", "MC_Requests_bugs")
    reject(c, b, "requests", ["nodiameter", "jobdiameter", "wirediameter", "zerooffset", "nooffsets", "firstshape", "skipshape", "noavoid", "firstavoid", "above",
                              "tilted", "level", "levelavoid", "notargets", "nodepth", "equaltabs", "notabs", "edgetabs", "nosteps", "onemore", "oneless",
                              "drilldiameter", "empty", "swallow", "half"])
    return [x for x in r.records if x["kind"] == "hist"]
