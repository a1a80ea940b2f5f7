#!/usr/bin/env python3
"""Measures sensitivity: small random changes of the library and the tools, each
built in a scratch copy and given to every check for a few seconds.

  mutate.py COUNT [SEED] [--workers N] [--seconds S] [--files a.cc,b.h]

Prints one line per change: which property's check reports it first, or SURVIVED.
Survivors are then read by hand: most keep the behaviour (dead code, texts of
messages, performance), the others show what a check does not exercise.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CONFIG  # noqa: E402

SCRATCH = "/tmp/mut"
BASE = os.environ.get("SIM_REPO", "/repo")


def arg(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


FILES = [f for f in subprocess.run(["git", "-C", BASE, "ls-files", "nsasm", "util"], stdout=subprocess.PIPE,
                                   text=True).stdout.split()
         if re.search(r"\.(cc|h)$", f) and not f.endswith("_test.cc") and
         os.path.basename(f) not in ("interactive_parse.cc", "print_opcode_map.cc")]

RULES = [
    (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"if \(!", "if ("), (r"if \((?!!)(\w)", r"if (!\1"), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b2\b", "1"),
    (r"0xff\b", "0x7f"), (r"0xffff\b", "0x7fff"), (r"0x8000\b", "0x8001"), (r" & ", " | "), (r" \| ", " & "),
    (r"<<", ">>"), (r"\+\+", "--"), (r"B_on\b", "B_off"), (r"B_off\b", "B_on"), (r"B_unknown\b", "B_on"),
    (r"\bA_(\w+)_b\b", r"A_\1_w"), (r"\bA_(\w+)_w\b", r"A_\1_b"), (r"MBit\(\)", "XBit()"), (r"XBit\(\)", "MBit()"),
    (r"M_(adc|bcc|sec|rep|php|pha|jsr|lda|phx)\b", r"M_nop"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"),
    (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"T_byte\b", "T_word"), (r"T_word\b", "T_byte"), (r"T_long\b", "T_word"),
    (r"AddWrapped\(", "AddUnwrapped("), (r"begin\(\)", "end()"),
]


def mutants(rng):
    """Yields (file, line number, old line, new line)."""
    sites = []
    for f in FILES:
        for n, l in enumerate(open(os.path.join(BASE, f)).read().split("\n")):
            code = l.split("//")[0]
            if not code.strip() or code.lstrip().startswith("#") or "assert(" in code:
                continue
            sites.append((f, n, l))
    while True:
        f, n, l = rng.choice(sites)
        code = l.split("//")[0]
        options = []
        # Not inside string literals.
        masked = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group()) - 2) + '"', code)
        for pat, rep in RULES:
            for m in re.finditer(pat, masked):
                options.append(code[:m.start()] + m.expand(rep) + code[m.end():])
        if re.match(r"^\s+[\w.>\-\[\]*()]+(\(.*\)| [-+|&]?= .*|\+\+|--);\s*$", masked) and not re.match(r"^\s+(return|const|auto|int|bool)\b", masked):
            options += [re.match(r"^\s*", code).group() + ";"] * 2
        if options:
            new = rng.choice(options)
            if new != code:
                yield f, n, l, new


def run_one(job):
    k, (f, n, old, new), seconds, worker = job
    repo = os.path.join(SCRATCH, "repo%d" % worker)
    bld = os.path.join(SCRATCH, "build%d" % worker)
    path = os.path.join(repo, f)
    original = open(path).read()
    lines = original.split("\n")
    lines[n] = new
    open(path, "w").write("\n".join(lines))
    env = dict(os.environ, SIM_REPO=repo, SIM_BUILD=bld)
    try:
        exes = {}
        for profile in ("stock", "std"):
            p = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build.py"), profile], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return "does not compile"
            exes[profile] = p.stdout.strip().split("\n")[-1]
        out = os.path.join(SCRATCH, "out%d" % worker)
        for seed, secs in ((1, seconds), (2, 3 * seconds)):
            for prop in ORDER:
                for profile in CONFIG[prop]["profiles"]:
                    if os.path.exists(out):
                        os.unlink(out)
                    p = subprocess.run([exes[profile], "run", prop, str(seed), "0", "1", "1000000", str(secs), out],
                                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    try:
                        v = json.load(open(out)).get("violations")
                    except (OSError, ValueError):
                        return "%s: no result (exit %d)" % (prop, p.returncode)
                    if v:
                        return "%s %s: %s" % (prop, v[0]["class"], v[0]["message"][:70])
            # Same program?
        return "SURVIVED"
    finally:
        open(path, "w").write(original)
        for x in os.listdir(bld) if os.path.isdir(bld) else []:
            if re.match(r"(stock|std)-", x):
                os.unlink(os.path.join(bld, x))


ORDER = ["D03", "A03", "A06", "A05", "D02", "A02", "T02", "D01", "R01", "A01", "R03", "R07", "R02", "R06", "R09", "T03",
         "A04", "D04", "R08", "T01", "S01", "R04", "R05"]
ORDER = [p for p in ORDER if p in CONFIG] + [p for p in CONFIG if p not in ORDER]


def main():
    count = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2].isdigit() else 1
    workers = int(arg("--workers", "6"))
    seconds = float(arg("--seconds", "2"))
    only = arg("--files", "")
    if only:
        FILES[:] = [f for f in FILES if os.path.basename(f) in only.split(",")]
    os.makedirs(SCRATCH, exist_ok=True)
    for w in range(workers):
        shutil.rmtree(os.path.join(SCRATCH, "repo%d" % w), ignore_errors=True)
        subprocess.run(["git", "clone", "-q", BASE, os.path.join(SCRATCH, "repo%d" % w)], check=True)
    rng = random.Random(seed)
    gen = mutants(rng)
    seen = set()
    jobs = []
    while len(jobs) < count:
        m = next(gen)
        if m not in seen:
            seen.add(m)
            jobs.append(m)
    import queue
    import threading
    free = queue.Queue()
    for w in range(workers):
        free.put(w)
    lock = threading.Lock()

    def go(k):
        w = free.get()
        try:
            r = run_one((k, jobs[k], seconds, w))
        finally:
            free.put(w)
        f, n, old, new = jobs[k]
        with lock:
            print("%-9s %s:%d\n   - %s\n   + %s\n   => %s" % ("SURVIVED" if r == "SURVIVED" else "", f, n + 1, old.strip(),
                                                         new.strip(), r), flush=True)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, range(count)))


if __name__ == "__main__":
    main()
