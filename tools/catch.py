#!/usr/bin/env python3
"""Runs checks against planted bugs: catch.py [BUG...] [--props P,Q|all|own]

Uses a scratch copy of /repo; /repo itself is not touched.  Not used by any check.
"""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CONFIG

def main():
    args = sys.argv[1:]
    props = "own"
    if "--props" in args:
        i = args.index("--props")
        props = args[i + 1]
        del args[i:i + 2]
    bugs = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    for b in bugs:
        d = os.path.join(VERIF, "seeded", b)
        meta = json.load(open(os.path.join(d, "meta.json")))
        work = tempfile.mkdtemp(prefix="catch.")
        try:
            repo = os.path.join(work, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
            todo = [meta["property"]] if props == "own" else sorted(CONFIG) if props == "all" else props.split(",")
            res = []
            for p in todo:
                if p not in CONFIG:
                    res.append(p + ":no-check")
                    continue
                t = time.time()
                env = dict(os.environ, SIM_REPO=repo, SIM_BUILD=os.path.join(VERIF, "build"),
                           SIM_EVIDENCE=os.path.join(work, "ev"))
                r = subprocess.run([os.path.join(VERIF, "check.py"), p], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                cls = [l for l in r.stdout.splitlines() if l.startswith(("R", "A", "D", "S", "T", "crash", "hang", "no answer")) and ": " in l]
                res.append("%s:%s(%.0fs)" % (p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else {0: "quiet"}.get(r.returncode, "no-answer"), time.time() - t))
                if r.returncode:
                    res.append("[" + (cls[-1][:140] if cls else r.stdout[-200:]) + "]")
            print(b, *res, flush=True)
        finally:
            shutil.rmtree(work)
main()
