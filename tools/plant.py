#!/usr/bin/env python3
"""Records one planted bug: plant.py SPEC.py  (SPEC defines ID, PROP, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO = C++ text, SOURCES, WRAP).

Confirms in a scratch copy of /repo that the change compiles, passes the stable
tests, and that the demonstration passes without and fails with it; then writes
/verif/seeded/ID.  Not used by any check.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
#include "nsasm/rom.h"
#include "nsasm/ranges.h"
using Bytes = std::vector<uint8_t>;
static void put(const std::string& p, const Bytes& b) {
  std::ofstream f(p, std::ios::binary); f.write((const char*)b.data(), b.size());
}
static Bytes get(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return Bytes(std::istreambuf_iterator<char>(f), {});
}
static Bytes image(size_t n, bool lo) {
  Bytes d(n);
  for (size_t i = 0; i < n; ++i) d[i] = uint8_t(i * 7 + (i >> 8) * 13 + (i >> 16) * 31);
  for (size_t b : {size_t(0x7fb0), size_t(0xffb0)}) {
    bool good = (b == 0x7fb0) == lo;
    d[b + 0x2c] = 1; d[b + 0x2d] = 2; d[b + 0x2e] = good ? 0xfe : 0; d[b + 0x2f] = 0xfd;
  }
  return d;
}
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

STD_PRELUDE = r'''
#include <map>
#include "nsasm/assembler.h"
#include "nsasm/disassemble.h"
#include "nsasm/file.h"
#include "nsasm/memory.h"
struct Sink : nsasm::OutputSink {
  std::map<uint32_t, uint8_t> bytes;
  int left = -1;  // writes until one is refused
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const uint8_t> d) override {
    if (left >= 0 && left-- == 0) return nsasm::Error("sink is full");
    for (size_t i = 0; i < d.size(); ++i) {
      nsasm::Address at = a.AddWrapped(int(i));
      bytes[uint32_t(at.Bank()) << 16 | at.BankAddress()] = d[i];
    }
    return {};
  }
};
struct Memory : nsasm::InputSource {
  std::map<uint32_t, uint8_t> bytes;
  int left = -1;  // reads until one fails
  std::string path = "memory";
  void set(uint32_t a, Bytes b) { for (uint8_t x : b) bytes[a++] = x; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int n) const override {
    Memory* me = const_cast<Memory*>(this);
    if (left >= 0 && me->left-- == 0) return nsasm::Error("bad sector");
    std::vector<uint8_t> v;
    for (int i = 0; i < n; ++i) {
      nsasm::Address at = a.AddWrapped(i);
      auto it = bytes.find(uint32_t(at.Bank()) << 16 | at.BankAddress());
      v.push_back(it == bytes.end() ? 0 : it->second);
    }
    return v;
  }
  std::string Path() const override { return path; }
};
static nsasm::ErrorOr<nsasm::Assembler> assemble(const std::vector<std::string>& texts, Sink* sink) {
  std::vector<nsasm::File> files;
  for (size_t i = 0; i < texts.size(); ++i) files.push_back(nsasm::MakeFakeFile("f" + std::to_string(i) + ".asm", texts[i]));
  return nsasm::Assemble(files, sink);
}
'''

STD_SH = '''#!/bin/bash
# Run with cwd = the repository, after the build.  Compiles the library with
# Abseil configured for the standard types, as the project expects it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/inc" "$tmp/o" && cp -r /usr/include/absl "$tmp/inc/absl" || exit 99
sed -i -E 's/(define ABSL_OPTION_USE_STD_(ANY|OPTIONAL|STRING_VIEW|VARIANT)) 0/\\1 1/' "$tmp/inc/absl/base/options.h"
FLAGS="-std=c++20 -O0 -w -D_GLIBCXX_ASSERTIONS -iquote $PWD -isystem $tmp/inc"
export FLAGS tmp
{ ls nsasm/*.cc | grep -v _test.cc; ls "$here"/*.cc; @TOOLS@ } |
  xargs -P 8 -I{} sh -c 'g++ $FLAGS -c "{}" -o "$tmp/o/$(basename "{}").o" || exit 255' || exit 98
lib="$(ls "$tmp"/o/*.o | grep -v -e /tool_ -e /demo.cc)"
link() { g++ $1 $lib -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread -o "$2" || exit 98; }
@LINK@
cd "$tmp"
@RUN@
'''

def std_demo_sh(spec):
    tools = spec.get("TOOLS", [])
    s = STD_SH
    if tools:
        prep = "".join('cp util/%s.cc "$tmp/tool_%s.cc"\n' % (t, t) for t in tools)
        s = s.replace("FLAGS=\"-std", prep + "FLAGS=\"-std")
        s = s.replace("@TOOLS@", 'ls "$tmp"/tool_*.cc;')
    else:
        s = s.replace("@TOOLS@ ", "")
    link = "".join('link "$tmp/o/tool_%s.cc.o" "$tmp/%s"\n' % (t, t) for t in tools)
    if "DEMO" in spec:
        link += 'link "$tmp/o/demo.cc.o" "$tmp/demo"\n'
    s = s.replace("@LINK@\n", link)
    return s.replace("@RUN@", spec.get("RUN", "timeout 100 ./demo"))

def demo_sh(spec):
    if spec.get("STD"):
        return std_demo_sh(spec)
    if "DEMO_SH" in spec:
        return spec["DEMO_SH"]
    src = " ".join(spec.get("SOURCES", ["nsasm/rom.cc", "nsasm/memory.cc", "nsasm/error.cc", "nsasm/ranges.cc"]))
    wrap = " ".join("-Wl,--wrap=" + w for w in spec.get("WRAP", []))
    return '''#!/bin/bash
# Run with cwd = the repository, after the build.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -D_GLIBCXX_ASSERTIONS %s -iquote "$PWD" "$here/demo.cc" %s %s \\
  -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread -o "$tmp/demo" || exit 98
cd "$tmp" && timeout 100 ./demo
''' % (spec.get("CXXFLAGS", ""), src, wrap)

def main(path):
    spec = {}
    exec(open(path).read(), spec)
    out = os.path.join(VERIF, "seeded", spec["ID"])
    work = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in spec["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times: %s" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", repo).stdout
        d = os.path.join(work, "demo")
        os.makedirs(d)
        for name, text in spec.get("FILES", {}).items():
            open(os.path.join(d, name), "w").write(text)
        if "DEMO" in spec:
            open(os.path.join(d, "demo.cc"), "w").write(
                PRELUDE + (STD_PRELUDE if spec.get("STD") else "") + spec["DEMO"])
        if spec.get("STD"):
            shutil.copy(os.path.join(VERIF, "sim/adapter/absl_std.cc"), d)
        open(os.path.join(d, "demo.sh"), "w").write(demo_sh(spec))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        clean = sh("bash %s/demo.sh" % d, "/repo", timeout=300)
        if clean.returncode != 0:
            return "demo fails on the unchanged tree: %d %s" % (clean.returncode, clean.stdout[-2000:])
        bad = sh("bash %s/demo.sh" % d, repo, timeout=300)
        if bad.returncode in (0, 98, 99):
            return "demo with the change gives %d %s" % (bad.returncode, bad.stdout[-3000:])
        # Build and stable tests of the changed tree, in place (build.sh works on /repo).
        open(os.path.join(work, "p.diff"), "w").write(diff)
        while subprocess.run(["pgrep", "-f", "endcheck.py"], stdout=subprocess.DEVNULL).returncode == 0:
            time.sleep(5)  # vcheck is using /repo
        a = sh("git apply %s/p.diff" % work, "/repo")
        if a.returncode:
            return "patch does not apply: " + a.stdout
        try:
            t = sh("bash /opt/vp/test.sh %s/t.json" % work, "/repo", timeout=600)
        finally:
            sh("git checkout -- .", "/repo")
        r = json.load(open(os.path.join(work, "t.json")))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        missing = [x for x in stable if x not in r["passed"]]
        if missing:
            return "tests fail: %s %s" % (missing, t.stdout[-1500:])
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("recorded", spec["ID"], "demo:", bad.returncode, bad.stdout.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(work)

if __name__ == "__main__":
    for p in sys.argv[1:]:
        e = main(p)
        if e:
            print(p, "NOT RECORDED:", e)
