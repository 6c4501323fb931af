#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, a section per property made from the checks, tools/design_tail.md"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = dict(
 C01="KKT conditions of the weighted problem (necessary and sufficient: it is convex), with template fluxes recomputed in float64; zero weights and ranges by definition.",
 C02="the same operation on each object alone (differential), and the documented shapes.",
 C03="-2.5 log10 of the ratio of model fluxes from mc/ref.py; exact identities at z = 0 and at equal band shift.",
 C04="mc/ref.py: float64 photometry of the coefficient-weighted sum, interpolated between neighbouring grid redshifts.",
 C05="mc/ref.py with the object's cosmology; -9999 exactly where undefined.",
 C06="mc/ref.py weighted sums over the templates' properties.",
 C07="for every script of draws: measured flux + draw/sqrt(ivar) in exactly the bands with positive ivar, KKT for every set, ordinary methods for every draw.",
 C08="the written-out SDSS asinh definition, its derivative, and the AB offsets.",
 C09="the definition, band by band.",
 C10="effective wavelength from mc/ref.py and 3631 Jy in erg/s/cm2/A at it.",
 C11="mc/ref.py integral on the union grid; linearity and independence by construction.",
 C12="mc/ref.py on the parsed curve (effective wavelength, half-maximum points, solar magnitude, Vega offset).",
 C13="a dictionary model: name -> (object identity, curve), stepped with every operation.",
 C14="rest-frame arrays kept by the model, and a fresh object set to the same redshift (bit for bit).",
 C15="a model of the file's content (list of extensions); everything is read back after every new operation.",
 C16="the object that was saved: configuration equal, results equal to 2e-5.",
 C17="every call's result when made first in a fresh process, and checksums of all caller data.",
 C18="the reference solution where a solve or its retry succeeds, an error where neither does.",
 C19="every thread gets the same registry and complete responses; some sequential order explains what each saw; no deadlock.",
 C20="accept exactly the documented combinations of shapes; ValueError or TypeError otherwise.",
 C21="each template's and band's fluxes on their own.",
 C22="the file left either raises when read or gives an object with everything in it.",
 C23="an uncorrecting object given data the check corrected itself.",
 C26="every call's result without interruption (each found in a process of its own), checksums of all caller data, mc/ref.py for every registered response.",
 C28="the original object, and each call made of uncopied objects.",
 C29="log10 of wavelength and of wavelength times flux in float64, sample by sample.",
 C30="the same pass through the package in plain surroundings (and the shipped response files as parsed by the reference).",
 C31="the same call without missing values, and by definition: error, not finite, or placeholder.",
 C32="the same call with everything given by name, and the documented defaults.",
 C33="mc/ref.py, told the curves that were put under each name.",
 C27="every call's result when nothing else runs.",
 C24="the values written to the file.",
)
COST = json.load(open(os.path.join(V, "tools", "cost.json"))) if os.path.exists(os.path.join(V, "tools", "cost.json")) else {}
out = open(V + "/tools/design_head.md").read()
out += "## Properties\n\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    f = V + "/checks/%s.py" % p["id"]
    out += "### %s %s\n\n" % (p["id"], p["title"])
    if not os.path.exists(f):
        out += "Not decided by this family: a statement about the distribution of an unbounded random stream; deciding it takes statistical sampling.  How the draws are used is C07.\n\n"
        continue
    t = ast.parse(open(f).read())
    out += "Oracle: %s\n\nExplored exhaustively (`checks/%s.py`):\n\n" % (ORACLE[p["id"]], p["id"])
    ass = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.decorator_list and "harness" in ast.unparse(n.decorator_list[0]):
            out += "- `%s`: %s\n" % (n.name, " ".join((ast.get_docstring(n) or "").split()))
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).endswith("Check"):
            for k in n.value.keywords:
                if k.arg == "assumptions":
                    ass = ast.literal_eval(k.value)
    out += "\nAssumptions: " + " ".join(ass) + "\n"
    c = COST.get(p["id"])
    if c:
        out += "\nCost: " + c + "\n"
    out += "\n"
out += open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
