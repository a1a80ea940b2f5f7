"""Builds the simulators from /repo's current working tree.

Two profiles:
  stock  the library as /opt/vp/build.sh builds it (system Abseil), without the
         parts that do not compile there;
  std    all of nsasm, with a patched copy of the Abseil headers (std:: string_view,
         optional, variant, as the project expects) and an adapter for the
         few functions of the system's libabsl that have other signatures.

Everything is cached under /verif/build by content hash; a check needs nothing
that an earlier command left behind.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

BASE = ["-std=c++20", "-fno-omit-frame-pointer", "-Wall", "-iquote", REPO]
SUT = ["-O1", "-g0", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS"]
HARNESS = ["-O1", "-g0", "-fno-threadsafe-statics", "-D_GLIBCXX_ASSERTIONS", "-I", VERIF,
           "-I", os.path.join(VERIF, "props")]

STOCK_SRC = ["nsasm/error.cc", "nsasm/memory.cc", "nsasm/mnemonic.cc", "nsasm/ranges.cc",
             "nsasm/rom.cc"]
# The library's files at the pinned commit: any other that appears is tried with
# the stock profile too (code may be moved to new files).
KNOWN_SRC = {"nsasm/%s.cc" % n for n in """addressing_mode assembler calling_convention decode directive
    disassemble error execution_state expression file instruction memory mnemonic module opcode_map parse
    ranges rom statement token""".split()}
STOCK_TOOLS = ["quick_dump"]
STD_TOOLS = ["quick_assemble", "quick_disassemble", "disassemble_more", "dumb_disassemble", "interactive_parse"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_hash(pats):
    files = sorted(f for p in pats for f in glob.glob(p))
    return sha(*[x for f in files for x in (f, read(f))])


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{what} failed: {' '.join(cmd)}\n{p.stdout[-6000:]}")
    return p.stdout


def rename_globals(obj, tool):
    """Several programs in one binary: prefix each one's own (strong) symbols."""
    args = []
    for line in run(["nm", "--defined-only", "-g", obj], "nm").splitlines():
        kind, sym = line.split()[-2:]
        if kind in "TDBRCS":
            args += ["--redefine-sym", "%s=%s_%s" % (sym, tool, sym)]
    run(["objcopy", *args, obj], "objcopy")


def compile_all(jobs):
    """jobs: (output, [commands])"""
    def one(j):
        out, cmds = j
        if os.path.exists(out):
            return
        tmp = out + ".tmp%d" % os.getpid()
        for c in cmds:
            if c[0] == "@rename":
                rename_globals(tmp, c[1])
            else:
                run([tmp if x == "@OUT" else x for x in c], "compiling")
        os.rename(tmp, out)
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()


def prune(objdir, keep):
    # Old objects of other trees: keep the cache small.
    files = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(files) < 600:
        return
    for f in sorted(files, key=os.path.getmtime)[:-300]:
        if f not in keep:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(profile, log=lambda s: None):
    """Returns the path of the simulator binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock." + profile), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(profile, log)


def build_locked(profile, log):
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    base = list(BASE)
    absl_key = "system"
    if profile == "std":
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import abslpatch
        inc, absl_key = abslpatch.prepare(BUILD)
        base += ["-isystem", inc]
    repo_headers = tree_hash([REPO + "/nsasm/*.h", REPO + "/util/*.h", REPO + "/test/*.h"])
    our_headers = tree_hash([VERIF + "/sim/*.h", VERIF + "/props/*.h"])
    jobs, objs = [], []

    def add(src, flags, key, post=None):
        obj = os.path.join(objdir, os.path.basename(src)[:-3] + "-" +
                           sha(src, read(src), " ".join(base + flags), key, absl_key, str(post)) + ".o")
        cmds = [["g++", *base, *flags, "-c", src, "-o", "@OUT"]]
        if post:
            cmds.append(["@rename", post])
        jobs.append((obj, cmds))
        objs.append(obj)

    if profile == "stock":
        srcs = [s for s in STOCK_SRC if os.path.exists(os.path.join(REPO, s))]
        for f in sorted(glob.glob(REPO + "/nsasm/*.cc")):
            s = os.path.relpath(f, REPO)
            if s not in KNOWN_SRC and not s.endswith("_test.cc") and subprocess.run(
                    ["g++", *base, "-fsyntax-only", f], stderr=subprocess.DEVNULL).returncode == 0:
                srcs.append(s)
        tools, props = STOCK_TOOLS, sorted(glob.glob(VERIF + "/props/r_*.cc"))
    else:
        srcs = sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + "/nsasm/*.cc")
                      if not f.endswith("_test.cc"))
        srcs.append("test/test_sink.cc")
        tools, props = STD_TOOLS, sorted(set(glob.glob(VERIF + "/props/*.cc")) -
                                         set(glob.glob(VERIF + "/props/r_*.cc")))
    for s in srcs:
        add(os.path.join(REPO, s), SUT, repo_headers)
    for t in tools:
        add(os.path.join(REPO, "util", t + ".cc"), SUT, repo_headers, t)
    for p in props:
        add(p, HARNESS, repo_headers + our_headers)
    for s in sorted(glob.glob(VERIF + "/sim/*.cc")):
        add(s, HARNESS, our_headers)
    if profile == "std":
        for s in sorted(glob.glob(VERIF + "/sim/adapter/*.cc")):
            add(s, HARNESS, our_headers)
    exe = os.path.join(BUILD, "%s-%s" % (profile, sha(*objs)))
    if os.path.exists(exe):
        return exe
    log("building the %s simulator (%d objects)" % (profile, len(objs)))
    compile_all(jobs)
    libs = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
    tmp = exe + ".tmp%d" % os.getpid()
    run(["g++", "-no-pie", "-o", tmp, *objs, "-Wl,--start-group", *libs, "-Wl,--end-group",
         "-lpthread", "-ldl"], "linking")
    os.rename(tmp, exe)
    # Drop simulators of other trees, but none that may still be in use.
    for f in glob.glob(os.path.join(BUILD, profile + "-*")):
        if f != exe and time.time() - os.path.getmtime(f) > 3600:
            os.unlink(f)
    prune(objdir, set(objs))
    return exe


if __name__ == "__main__":
    for p in sys.argv[1:] or ["stock", "std"]:
        try:
            print(build(p, print))
        except BuildError as e:
            print(e)
            sys.exit(2)
