#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP = "bounded exhaustive exploration of the real code over every combination of a finite alphabet of inputs and configurations, each execution compared with a reference model"
HIS = "bounded exhaustive exploration of operation sequences on the real code (stateless model checking), a reference model stepped and compared after every operation"
T = dict(
 C01=(INP + "; optimality decided by the KKT conditions", "Complete within the alphabets (flux and weight patterns, configurations, redshift positions); values outside them are not covered. Trusts the float64 reference photometry."),
 C02=(INP + " (differential: row against single object)", "Complete for catalogues up to the bound built from 8 kinds of objects, for all operations and containers."),
 C03=(INP, "Complete for maps of up to 3 output bands onto 3 observed ones; K compared to 1e-4 mag."),
 C04=(INP, "Complete over positions of redshift and band shift relative to the grids listed; 2e-5 relative."),
 C05=(INP, "Complete over sign patterns of 3 bands, subsets of optional outputs and catalogues of up to 3; 1e-4 mag."),
 C06=(INP, "Complete over coefficient supports and the listed objects; 1e-4 relative."),
 C07=("exhaustive exploration of scripted environments: every sequence of random draws over a small alphabet is a choice of the explorer, the real code runs on each and is compared with the model", "The distribution of the draws is out of scope (C25)."),
 C08=(INP, "Complete over magnitude regimes of 5 bands and catalogue shapes; 2e-5 relative."),
 C09=(INP, "Complete over flux and error regimes of up to 3 bands and catalogues of up to 4."),
 C10=(INP + ", each from an empty registry", "Complete over band lists up to length 3 and registry histories."),
 C11=(INP, "Complete over relative positions of spectrum samples and bandpass (11 sites), sample orders and all shipped responses; 2e-5."),
 C12=(INP, "Complete over curves of 6 samples with 4 values and all shipped responses."),
 C13=(HIS + ", each in a process of its own", "Complete for sequences of 3 of 16 operations (thorough 4)."),
 C14=(HIS, "Complete for sequences of 3 of 11 operations (thorough 4), longer for 5 operations."),
 C15=(HIS, "Complete for sequences of 3 of 20 file operations (thorough 4); the whole content is read back after each."),
 C16=(HIS + ", each in a process of its own", "Complete over listed configurations and reload routes and sequences of 3 of 11 operations (thorough 5)."),
 C17=(HIS + " (differential: each result against the same call made first)", "Complete for pairs of 43 calls and events and triples of 14 (thorough 43)."),
 C18=("exhaustive fault enumeration on the real code: every assignment of solver failures to the solves of a call is an explored execution, compared with the reference model", "The solver is replaced before import by the same solver with a chosen difficulty per problem."),
 C19=("stateless model checking of thread interleavings of the real code under a controlled scheduler, exhaustive up to a preemption bound", "Sequentially consistent interleavings at instruction or line steps, bounded preemptions (see assumptions in the evidence)."),
 C20=(INP, "Complete over shapes up to 3 dimensions and lengths around the right ones."),
 C21=(INP, "Complete over listed template counts, permutations of up to 4 templates, band lists of up to 3 and grids."),
 C22=("exhaustive crash-point and torn-write enumeration on the real code (the kernel cuts the write at every chosen byte), the file left over read back and compared with the model", "Process death and lack of space, in write order; no reordering of completed writes by a power failure."),
 C23=(HIS + " (differential: against an uncorrecting object given corrected data)", "Complete over 8 kinds of object, flags and sequences of 2 calls (thorough 3)."),
 C26=("exhaustive crash-point enumeration on the real code: every public call is interrupted before every one of its statements, each an explored execution whose aftermath is compared with that of the uninterrupted code", "Complete over statements of 65 calls; nothing is interrupted inside numpy, scipy, astropy or clean-up blocks, and only once per execution."),
 C27=("stateless model checking of thread interleavings of the real code under a controlled scheduler, exhaustive up to a preemption bound (differential: each call against the same call alone)", "Two threads, line-level steps, sequentially consistent, at most 1 preemption (2 for some pairs)."),
 C28=(HIS + " (differential: each copy against the original, in this and in a freshly started interpreter)", "Complete over 13 kinds of object, 5 prior states, chains of up to 2 copies (thorough 3), 47 calls, and 47 changes to either side."),
 C29=(INP, "Complete over 8 kinds of spectra, 3 redshifts, index lists of up to 2 (thorough 4), 5 limits and pairs of plots; reads matplotlib's line data, not pixels."),
 C30=(HIS + " (differential: against plain surroundings)", "Complete over 6 working directories, 5 environments, 5 import paths, 6 events, and sequences of 2 of 9 events after user files were read."),
 C31=(INP + " (differential: against the same call without the missing values)", "Complete over 12 states of each of 3 bands, places in catalogues of up to 3, 15 kinds of missing value per object and 7 operations, 5 conversions."),
 C32=(INP + " (differential: against the same call with everything given by name)", "Complete over 43 calls, up to 4 values per option, every number of positional arguments; choices of defaults left out complete except for constructors in the quick tier (all, none, each alone)."),
 C33=(HIS, "Complete over 8 ways of making a response, 5 of registering it, 5 kinds of name and 4 roles; sequences of 3 (thorough 4) of 13 operations on the registry."),
 C24=(INP, "Complete over numbers of models up to the bound and 15 layouts."),
)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -W ignore -c 'import numpy, scipy, astropy; import mc.engine' && mkdir -p evidence replays",
         checks=[dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                      technique=T[p["id"]][0], level="model_checking", level_note=T[p["id"]][1])
                 for p in props if p["id"] in T],
         not_applicable=[dict(property="C25", reason="A statement about the distribution of an unbounded random stream: deciding it takes statistical sampling, which is not exhaustive exploration. C07 covers how the draws are used, for every script of draws.")],
         notes="One explorer (mc/engine.py) runs the real code for every sequence of choices; nothing is built, /repo/src is imported directly. See DESIGN.md; genuine defects and their repairs are in KNOWN_FINDINGS.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
