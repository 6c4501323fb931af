"""mkseeds.py WORKDIR [ids]: write seeded/<id>/ from tools/seeds.py and validate each in a scratch copy of /repo under WORKDIR"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS                                     # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD | tail -1", shell=True, capture_output=True, text=True).stdout.strip()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def original(d, edits):
    """Some line that is removed or changed is the original repository's"""
    out = subprocess.run("git -C %s/repo diff -U0" % d, shell=True, capture_output=True, text=True).stdout
    fn, n = None, 0
    for line in out.splitlines():
        if line.startswith("--- a/"):
            fn = line[6:]
        if line.startswith("@@"):
            old = line.split()[1][1:].split(",")
            a, c = int(old[0]), int(old[1]) if len(old) > 1 else 1
            for i in range(a, a + c):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (i, i), "HEAD", "--", fn], capture_output=True, text=True).stdout
                n += b.startswith("^")
    return n


def one(x):
    id, prop, edits, needs, breaks, demo = x
    d = os.path.join(sys.argv[1], id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    s = os.path.join(HERE, "seeded", id)
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    try:
        subprocess.run("cp -a /repo %s/repo" % d, shell=True, check=True)
        shutil.copy(os.path.join(HERE, "tools/seedlib/kt.py"), s)
        with open(s + "/demo.py", "w") as fp:
            fp.write('"""%s: %s"""\nfrom kt import *                                    # noqa: F401,F403\nfrom kt import sys, np, fits, kcorrect, path, band, bands, templates, build, near, ok   # noqa: F401\n' % (prop, breaks) + demo)
        with open(s + "/demo.sh", "w") as fp:
            fp.write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\nexec timeout 200 /opt/venv/bin/python -W ignore "$d/demo.py"\n')
        os.chmod(s + "/demo.sh", 0o755)
        with open(s + "/meta.json", "w") as fp:
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), fp, indent=1)
            fp.write("\n")
        rc0, out0 = sh("bash %s/demo.sh" % s, d + "/repo")
        for f, old, new in edits:
            p = d + "/repo/src/kcorrect/%s.py" % f
            t = open(p).read()
            if t.count(old) != 1:
                return id, "EDIT matches %d times: %s" % (t.count(old), old[:50])
            open(p, "w").write(t.replace(old, new))
        with open(s + "/patch.diff", "w") as fp:
            fp.write(subprocess.run("git -C %s/repo diff" % d, shell=True, capture_output=True, text=True).stdout)
        rc1, out1 = sh("bash %s/demo.sh" % s, d + "/repo")
        rct, outt = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider", d + "/repo", dict(ENV, PYTHONPATH=d + "/repo/src"))
        n = original(d, edits)
        good = rc0 == 0 and rc1 != 0 and rct == 0 and n > 0 and "FAILED" in out1
        return id, ("valid" if good else "INVALID") + " demo %d/%d tests %d original lines %d\n%s%s" % (
            rc0, rc1, rct, n, out0[-600:] if rc0 else "", "" if "FAILED" in out1 and rct == 0 else out1[-500:] + outt[-400:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [x for x in SEEDS if not sys.argv[2:] or x[0] in sys.argv[2:]]
with ThreadPoolExecutor(6) as ex:
    for id, r in ex.map(one, todo):
        print(id, r.strip(), flush=True)
