#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py PROP                 quick or thorough by VERIF_TIER, seed VERIF_SEED
  check.py PROP --replay FILE   re-executes a replay file

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer
(does not build, harness error, or a run that does not repeat exactly).
"""
import json
import os
import re
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder  # noqa: E402
from config import CONFIG  # noqa: E402

EVIDENCE = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
WORKERS = 8
GATE = 48          # runs repeated in another process layout
CHECK_LIMIT = 700  # seconds for everything in the quick tier


class NoAnswer(Exception):
    pass


class Sim:
    def __init__(self, prop, exe, tmp):
        self.prop, self.exe, self.tmp = prop, exe, tmp
        self.profile = ""

    def search(self, seed, start, stride, count, seconds, tag):
        out = os.path.join(self.tmp, "out." + tag)
        p = subprocess.run([self.exe, "run", self.prop, str(seed), str(start), str(stride),
                            str(count), str(seconds), out],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            raise NoAnswer("simulator ended with %d: %s" % (p.returncode, p.stderr[-2000:]))
        with open(out + ".hashes", "rb") as f:
            d = f.read()
        r["hashes"] = {a: b for a, b in struct.iter_unpack("<QQ", d)}
        with open(out + ".cov", "rb") as f:
            r["cov"] = f.read()
        return r

    def replay(self, choices, trace=False):
        p = subprocess.run([self.exe, "replay", self.prop, "-"] + (["trace"] if trace else []),
                           input=" ".join(map(str, choices)), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        line = p.stdout.strip().splitlines()
        try:
            r = json.loads(line[-1])
        except (IndexError, ValueError):
            return {"exit": -1, "class": "", "message": p.stdout[-500:] + p.stderr[-500:],
                    "choices": [], "ns": [], "hash": "", "scenario": "", "steps": 0}
        r["trace"] = p.stderr.splitlines() if trace else []
        return r


def strip(choices):
    c = list(choices)
    while c and c[-1] == 0:
        c.pop()
    return c


def cost(c):
    return (len(c), sum(1 for x in c if x), sum(min(x, 1 << 20) for x in c))


def minimise(sim, choices, vclass, seconds):
    """Shortest, then simplest, choice sequence found with the same violation class."""
    end = time.time() + seconds
    best = strip(choices)
    tried = set()
    attempts = 0

    def test(c):
        if time.time() > end:
            return None
        r = sim.replay(c)
        if r["exit"] == 10 and r["class"] == vclass:
            return strip(r["choices"][:len(c)])
        return None

    with ThreadPoolExecutor(WORKERS) as ex:
        def first(cands):
            nonlocal attempts, best
            todo = []
            for c in cands:
                c = strip(c)
                k = tuple(c)
                if k in tried or cost(c) >= cost(best):
                    continue
                tried.add(k)
                todo.append(c)
            for i in range(0, len(todo), WORKERS):
                if time.time() > end:
                    return False
                part = todo[i:i + WORKERS]
                attempts += len(part)
                ok = [r for r in ex.map(test, part) if r is not None and cost(r) < cost(best)]
                if ok:
                    best = min(ok, key=cost)
                    return True
            return False

        progress = True
        while progress and time.time() < end:
            progress = False
            # Truncate.
            while first([best[:int(len(best) * k / 8)] for k in range(0, 8)]):
                progress = True
            # Delete chunks.
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                while first([best[:i] + best[i + size:] for i in range(0, len(best), max(1, size // 2))]):
                    progress = True
                size //= 2
            # Zero chunks, then lower single values.
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                while first([best[:i] + [0] * min(size, len(best) - i) + best[i + size:]
                             for i in range(0, len(best), size)]):
                    progress = True
                size //= 2
            for i in range(len(best)):
                if time.time() > end or i >= len(best):
                    break
                while i < len(best) and best[i] > 0 and first(
                        [best[:i] + [v] + best[i + 1:]
                         for v in sorted({0, 1, best[i] // 2, best[i] - 1}) if v < best[i]]):
                    progress = True
    return best, attempts


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)", line.strip())
        if m and m[1] == prop:
            out.append((m[2], re.compile(m[3]), m[4]))
    return out


def is_known(known, cls, msg):
    return next((k for k in known if k[0] == cls and k[1].search(msg)), None)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    os.rename(tmp, path)


def report(sim, cfg, prop, seed, v, rel):
    """Confirms, minimises and writes the replay file; None if it does not repeat."""
    a, b = sim.replay(v["choices"]), sim.replay(v["choices"])
    for r in (a, b):
        if r["exit"] != 10 or r["class"] != v["class"]:
            return None
    if a["hash"] != b["hash"]:
        return None
    best, attempts = minimise(sim, v["choices"], v["class"], cfg.get("minimise", 45))
    f1, f2 = sim.replay(best, trace=True), sim.replay(best)
    if f1["exit"] != 10 or f1["class"] != v["class"] or f1["hash"] != f2["hash"]:
        best = v["choices"]
        f1 = sim.replay(best, trace=True)
    path = os.path.join(EVIDENCE, "replays", "%s-%s.json" % (prop, builder.sha(*best)[:10]))
    write_json(path, {
        "property": prop, "profile": sim.profile, "seed": seed, "run": v["index"],
        "scenario": f1["scenario"],
        "class": f1["class"], "message": f1["message"], "hash": f1["hash"],
        "original_choices": len(v["choices"]), "minimised_in": attempts,
        "choices": best, "trace": f1["trace"][-400:]})
    return path, f1


def replay_file(prop, path):
    with open(path) as f:
        d = json.load(f)
    exe = builder.build(d["profile"], lambda s: print(s, file=sys.stderr))
    with tempfile.TemporaryDirectory() as tmp:
        sim = Sim(prop, exe, tmp)
        r = sim.replay(d["choices"], trace=True)
    for line in r["trace"]:
        print(line)
    if r["exit"] == 10:
        print("%s: %s" % (r["class"], r["message"]))
        same = r["class"] == d["class"] and r["hash"] == d["hash"]
        print("identical to the recorded run" if same else "differs from the recorded run")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if r["exit"] == 0:
        print("no violation on this tree")
        return 0
    print("no answer: %s" % r["message"])
    return 2


def check(prop):
    t0 = time.time()
    cfg = CONFIG[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("property %s, tier %s, seed %d" % (prop, tier, seed), flush=True)
    known = known_findings(prop)
    with tempfile.TemporaryDirectory(prefix="sim.") as tmp:
        sims, unbuilt = [], []
        for i, profile in enumerate(cfg["profiles"]):
            try:
                exe = builder.build(profile, lambda s: print(s, flush=True))
            except builder.BuildError as e:
                # The first profile decides whether there is an answer at all.
                if i == 0:
                    raise
                unbuilt.append(profile)
                print("note: the %s simulator does not build; its scenarios were left out: %s" %
                      (profile, str(e)[-300:]))
                continue
            sims.append(Sim(prop, exe, tmp))
            sims[-1].profile = profile
        build_s = time.time() - t0
        if tier == "quick":
            quotas = {p: (n, cfg.get("quick_cap", 300)) for p, n in zip(cfg["profiles"], cfg["quick_runs"])}
        else:
            seconds = float(os.environ.get("SIM_SECONDS", cfg.get("thorough_s", 1200))) / len(sims)
            quotas = {p: (1 << 40, seconds) for p in cfg["profiles"]}
        t1 = time.time()
        rs = []
        for sim in sims:
            total, seconds = quotas[sim.profile]
            per = -(-total // WORKERS)
            with ThreadPoolExecutor(WORKERS) as ex:
                part = list(ex.map(lambda w: sim.search(seed, w, WORKERS, per, seconds, "w%d" % w),
                                   range(WORKERS)))
            for r in part:
                if r["harness_error"] and not any(x["violations"] for x in part):
                    raise NoAnswer("harness error: " + r["harness_error"])
                r["sim"] = sim
                for v in r["violations"]:
                    v["sim"] = sim
                rs.append(r)
        search_s = time.time() - t1
        vs = sorted((v for r in rs for v in r["violations"]), key=lambda v: v["index"])
        # One representative per class, the shortest first.
        seen_known = {}
        todo = {}
        for v in vs:
            k = is_known(known, v["class"], v["message"])
            if k:
                seen_known[k[2]] = v
                continue
            if v["class"] not in todo or len(v["choices"]) < len(todo[v["class"]]["choices"]):
                todo[v["class"]] = v
        found = None
        for v in sorted(todo.values(), key=lambda v: len(v["choices"])):
            found = report(v["sim"], cfg, prop, seed, v, None)
            if found:
                break
            print("a violation (%s, run %d) did not repeat: %s" % (v["class"], v["index"], v["message"]))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        hashes = {}
        for r in rs:
            hashes.update({(r["sim"].profile, i): h for i, h in r["hashes"].items()})
        gate = {"runs": 0, "mismatches": 0}
        if not found:
            if todo:
                raise NoAnswer("violations that do not repeat")
            # Determinism gate: other processes, other worker layout.
            for sim in sims:
                n = min(GATE, sum(1 for k in hashes if k[0] == sim.profile))
                with ThreadPoolExecutor(2) as ex:
                    again = list(ex.map(lambda w: sim.search(seed, w, 2, n // 2, 120, "g%d" % w), range(2)))
                for r in again:
                    for i, h in r["hashes"].items():
                        if (sim.profile, i) in hashes:
                            gate["runs"] += 1
                            gate["mismatches"] += hashes[sim.profile, i] != h
            if gate["mismatches"]:
                raise NoAnswer("%d of %d repeated runs differ: not deterministic" %
                               (gate["mismatches"], gate["runs"]))
        runs = sum(r["runs"] for r in rs)
        nontrivial = sum(r["nontrivial"] for r in rs)
        edges = 0
        for sim in sims:
            cov = zip(*[r["cov"] for r in rs if r["sim"] is sim])
            edges += sum(1 for c in cov if any(c))
        counters, scen = {}, {}
        for r in rs:
            for k, (fault, n) in r["counters"].items():
                c = counters.setdefault(k, [fault, 0])
                c[1] += n
            for k, n in r["scenarios"].items():
                scen[k] = scen.get(k, 0) + n
        faults = {k: v[1] for k, v in sorted(counters.items()) if v[0]}
        probes = {k: v[1] for k, v in sorted(counters.items()) if not v[0]}
        missing = [p for p in cfg.get("probes", []) if not probes.get(p) and not faults.get(p)]
        samples = []
        for profile, i in sorted(hashes, key=lambda k: k[1])[:3]:
            sim = next(s for s in sims if s.profile == profile)
            r = sim.search(seed, i, 1, 1, 60, "s")  # regenerates the choices of that run
            samples.append({"simulator": profile, "run": i, "event_log_hash": "%016x" % hashes[profile, i],
                            "scenario": list(r["scenarios"]), "steps": r["steps"],
                            "choices": r["choices"], "events": r["events"]})
        steps = sum(r["steps"] for r in rs)
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len({h for i, h in hashes.items()}) if nontrivial == runs
                else min(nontrivial, len(set(hashes.values()))),
                "rule": cfg["rule"] + " One evaluation is one simulated run; distinct = different "
                        "event-log hash (operations, schedule, faults, results); non-trivial = the run "
                        "reached at least one oracle comparison of this property.",
                "samples": samples,
                "oracle_comparisons": sum(r["evaluations"] for r in rs),
                "simulated_runs_per_hour": round(runs / max(search_s, 1e-3) * 3600),
                "seeds": 1, "runs_are_indices_of_seed": seed,
                "simulated_time_basic_blocks": steps,
                "simulated_events": sum(r["events"] for r in rs),
                "choices_drawn": sum(r["choices"] for r in rs),
                "faults_injected": faults, "probes_reached": probes,
                "probes_expected_but_not_reached": missing,
                "scenarios": scen,
                "distinct_histories": len(set(hashes.values())),
                "code_edges_reached": edges,
                "determinism_gate": gate,
                "simulators": [s.profile for s in sims], "simulators_not_built": unbuilt,
                "real_components": cfg["real"], "stub_components": cfg["stub"],
                "build_s": round(build_s, 1), "search_s": round(search_s, 1),
            },
            "assumptions": cfg["assumptions"],
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if found else 0,
        }
        if found:
            evidence["coverage"]["violation"] = {"replay": found[0], "class": found[1]["class"],
                                                 "message": found[1]["message"]}
        write_json(os.path.join(EVIDENCE, prop + ".json"), evidence)
        print("%d runs (%d distinct histories), %d comparisons, %d faults, %.1f s search, %.1f s in all" %
              (runs, evidence["coverage"]["distinct_histories"],
               evidence["coverage"]["oracle_comparisons"], sum(faults.values()), search_s,
               time.time() - t0))
        if missing:
            print("note: not reached: " + ", ".join(missing))
        if found:
            for line in json.load(open(found[0]))["trace"][-60:]:
                print("  | " + line)
            print("%s: %s" % (found[1]["class"], found[1]["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, found[0]))
            return 1
    return 0


def main():
    args = sys.argv[1:]
    try:
        if len(args) == 3 and args[1] == "--replay":
            return replay_file(args[0], args[2])
        if len(args) == 1 and args[0] in CONFIG:
            return check(args[0])
    except (NoAnswer, builder.BuildError, OSError) as e:
        print("no answer: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
