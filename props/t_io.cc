// S01, T01, and R04, R05 for source files and quick_assemble: reading sources
// and running the tool's own main() on the simulated disk.
#include <cstring>
#include <fstream>
#include <string>
#include <vector>

#include "asmrun.h"
#include "nsasm/file.h"
#include "nsasm/rom.h"
#include "rommodel.h"
#include "sim/fs.h"
#include "sim/sim.h"

extern "C" int quick_assemble_main(int argc, char** argv);

namespace {

namespace fs = sim::fs;
using asmrun::Text;
using model::Bytes;
using model::RomFile;

const char* kSrc = "/sim/src/a.asm";
const char* kIn = "/sim/in.sfc";
const char* kOut = "/sim/out.sfc";

Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }

// Lines as std::getline defines them.
std::vector<std::string> lines_of(const std::string& t) {
  std::vector<std::string> v;
  size_t b = 0;
  while (b < t.size()) {
    size_t e = t.find('\n', b);
    if (e == std::string::npos) e = t.size();
    v.push_back(t.substr(b, e - b));
    b = e + 1;
  }
  return v;
}

std::string make_text() {
  sim::Rng g = sim::data_rng("text");
  std::string t;
  int n = int(sim::choose(3, "lines?") == 0 ? sim::choose(6, "lines") : sim::choose(200, "lines"));
  int style = int(sim::choose(4, "style"));
  for (int i = 0; i < n; ++i) {
    int len;
    switch (style) {
      case 0: len = int(g.below(40)); break;
      case 1: len = g.below(10) ? int(g.below(200)) : 8170 + int(g.below(40)); break;
      case 2: len = g.below(20) ? int(g.below(3)) : int(g.below(30000)); break;
      default: len = int(g.below(100));
    }
    for (int k = 0; k < len; ++k) {
      uint8_t c = style == 3 ? uint8_t(g.next()) : uint8_t(32 + g.below(95));
      if (c == '\n') c = '\r';
      t += char(c);
    }
    t += '\n';
  }
  switch (sim::choose(4, "ending")) {
    case 0: break;
    case 1: t += "last line without newline"; break;
    case 2: if (!t.empty()) t.pop_back(); break;
    default: {  // a whole number of stream buffers
      size_t unit = g.below(2) ? 8191 : 4096;
      size_t want = (t.size() / unit + 1) * unit;
      while (t.size() < want) t += g.below(60) ? 'z' : '\n';
    }
  }
  return t;
}

// Things that text tools like to treat specially.
void decorate(std::string* t) {
  static const char* odd[] = {"\xef\xbb\xbf", "\xff\xfe", "\x1a", "\t", "\f", "\v", "  ", "#!", "\\", "\x04", "\x7f", "\r"};
  std::string what = odd[sim::choose(12, "odd-text")];
  if (sim::flip(1, 8, "zero-byte")) what = std::string(1, '\0');
  sim::Rng g = sim::data_rng("odd-place");
  switch (sim::choose(4, "odd-place")) {
    case 0: t->insert(0, what); break;
    case 1: t->append(what); break;
    default: {
      // At line starts and ends.
      std::string r;
      bool before = g.below(2);
      uint32_t every = 1 + g.below(4);
      uint32_t n = 0;
      for (char c : *t) {
        if (c != '\n') {
          r += c;
        } else {
          bool now = n++ % every == 0;
          if (now && before) r += what;
          r += c;
          if (now && !before) r += what;
        }
      }
      *t = r;
    }
  }
}

struct Opened {
  bool ok = false;
  std::string error, path;
  std::vector<std::string> lines;
};

Opened open_file(const std::string& path) {
  Opened o;
  sim::run_sut("OpenFile", [&] {
    auto f = nsasm::OpenFile(path);
    o.ok = f.ok();
    if (!f.ok()) {
      o.error = f.error().ToString();
      return;
    }
    o.path = f->path();
    for (auto& l : *f) o.lines.push_back(l);
  });
  sim::log("OpenFile %s -> %s, %zu lines", path.c_str(), o.ok ? "ok" : o.error.c_str(), o.lines.size());
  return o;
}

}  // namespace

// ---- S01 -----------------------------------------------------------------------
SIM_SCENARIO(S01, open_file, 1) {
  std::string text = make_text();
  if (sim::flip(1, 4, "decorate")) decorate(&text);
  bool missing = sim::flip(1, 20, "missing");
  if (!missing) fs::put(kSrc, bytes(text));
  auto want = lines_of(text);
  int attempts = 1 + int(sim::choose(3, "attempts"));
  for (int k = 0; k < attempts; ++k) {
    fs::clear_marks();
    int calls = 3 + int(text.size() / 8191);
    fs::set_policy(k && k + 1 == attempts ? fs::Policy() : fs::choose_policy(true, false, false, calls));
    Opened o = open_file(kSrc);
    fs::set_policy(fs::Policy());
    sim::evaluated();
    sim::nontrivial();
    if (!fs::mutated().empty()) sim::violation("S01.mutated", "%s was modified", fs::mutated().begin()->c_str());
    if (missing && o.ok) sim::violation("S01.ghost", "a file that does not exist was read");
    if (missing) continue;
    if (!o.ok) {
      SIM_PROBE("source refused");
      if (!fs::errors_injected()) {
        sim::violation("S01.refused", "a readable file was refused: %s", o.error.c_str());
      }
      if (o.error.empty()) sim::violation("S01.no-message", "an error without a message");
      continue;
    }
    SIM_PROBE("source read");
    if (o.path != kSrc) sim::violation("S01.path", "path is %s", o.path.c_str());
    if (o.lines != want) {
      size_t i = 0;
      while (i < o.lines.size() && i < want.size() && o.lines[i] == want[i]) ++i;
      sim::violation("S01.lines", "%zu lines read, %zu in the file; first difference in line %zu (%d calls failed)",
                     o.lines.size(), want.size(), i + 1, fs::errors_injected());
    }
  }
}

// A program is never assembled from part of a source.
SIM_SCENARIO(S01, assemble_sources, 1) {
  auto o = asmgen::choose_options(true, 3);
  asmgen::Generator gen(o, sim::data_rng("program"));
  auto p = gen.make();
  auto texts = asmrun::render(p, sim::data_rng("spelling"));
  for (auto& t : texts) {
    if (sim::flip(1, 3, "pad")) {  // long enough for several reads
      std::string pad(sim::choose(20000, "padding"), ' ');
      for (size_t i = 60; i < pad.size(); i += 61) pad[i] = '\n';
      t.text.insert(0, pad);
    }
    t.path = "/sim/src/" + t.path;
  }
  auto want = asmrun::assemble(texts);
  for (auto& t : texts) fs::put(t.path, bytes(t.text));
  int attempts = 1 + int(sim::choose(3, "attempts"));
  for (int k = 0; k < attempts; ++k) {
    fs::clear_marks();
    fs::set_policy(fs::choose_policy(true, false, false, 4 * int(texts.size())));
    std::vector<nsasm::File> files;
    bool read = true, ok = false;
    std::string error;
    asmrun::Sink sink;
    sim::run_sut("reading and assembling", [&] {
      for (auto& t : texts) {
        auto f = nsasm::OpenFile(t.path);
        if (!f.ok()) {
          read = false;
          return;
        }
        files.push_back(*std::move(f));
      }
      auto a = nsasm::Assemble(files, &sink);
      ok = a.ok();
      if (!ok) error = a.error().ToString();
    });
    fs::set_policy(fs::Policy());
    sim::evaluated();
    sim::nontrivial();
    if (!read) {
      SIM_PROBE("source refused");
      if (!fs::errors_injected()) sim::violation("S01.refused", "a readable source was refused");
      continue;
    }
    SIM_PROBE("source read");
    // A file with an open failure or a read error must not get here; that the
    // whole text was seen is visible in the outcome.
    if (ok != want.ok || error != want.error || sink.accepted != want.writes) {
      sim::violation("S01.assembled", "assembled %s (%zu writes) from the disk, %s (%zu writes) from the same text",
                     ok ? "ok" : error.c_str(), sink.accepted.size(),
                     want.ok ? "ok" : want.error.c_str(), want.writes.size());
    }
  }
}

// ---- R04 -----------------------------------------------------------------------
SIM_SCENARIO(R04, source_files, 1) {
  int n = 1 + int(sim::choose(6 + uint32_t(sim::size_class()), "opens"));
  for (int i = 0; i < n; ++i) {
    std::string text = make_text();
    bool dir = sim::flip(1, 10, "directory"), missing = sim::flip(1, 10, "missing");
    std::string path = dir ? "/sim/src/" : missing ? "/sim/none.asm" : kSrc;
    fs::put(kSrc, bytes(text));
    fs::clear_marks();
    fs::set_policy(fs::choose_policy(true, false, true, 3 + int(text.size() / 8191)));
    bool ok = false;
    sim::run_sut("OpenFile", [&] { ok = nsasm::OpenFile(path).ok(); });
    fs::set_policy(fs::Policy());
    sim::log("open %s -> %s", path.c_str(), ok ? "ok" : "error");
    sim::evaluated();
    sim::nontrivial();
    if (ok) SIM_PROBE("load ok"); else SIM_PROBE("load refused");
    if (int h = fs::open_handles()) {
      sim::violation("R04.leak", "%d file%s still open after %s", h, h == 1 ? "" : "s",
                     ok ? "reading a source" : "failing to read a source");
    }
  }
}

// ---- quick_assemble --------------------------------------------------------------
namespace {

struct Job {
  RomFile rom;
  Bytes rom_file;
  std::vector<Text> texts;
  bool identity = false;    // "-" as output
  bool expect_ok = false;   // without faults
  std::string why;          // if not
  Bytes output;
  std::string out = kOut;
  std::map<uint32_t, asmgen::Flags> targets;
};

// What a fault-free run must do.
void expect(Job* j) {
  auto m = model::load(j->rom_file);
  j->expect_ok = false;
  if (!m) {
    j->why = "the ROM is malformed";
    return;
  }
  if (j->out.size() >= 4 && j->out.compare(j->out.size() - 4, 4, ".asm") == 0) {
    j->why = "the output path is a source path";
    return;
  }
  auto o = asmrun::assemble(j->texts);
  if (!o.ok) {
    j->why = "the program is wrong: " + o.error;
    return;
  }
  for (auto& w : o.writes) {
    for (size_t i = 0; i < w.data.size(); ++i) {
      auto off = m->offset(model::wrap(w.at, uint32_t(i)));
      if (!off) {
        j->why = "code lies outside the ROM";
        return;
      }
      if (j->identity && m->image[*off] != w.data[i]) {
        j->why = "code differs from the ROM";
        return;
      }
      m->image[*off] = w.data[i];
    }
  }
  j->expect_ok = true;
  j->output = m->file();
  j->targets = o.targets;
}

Job make_job(bool allow_identity) {
  Job j;
  j.rom = model::make_rom(false);
  auto o = asmgen::choose_options(!sim::flip(1, 6, "sloppy-program"), 3);
  o.rom = !sim::flip(1, 8, "anywhere");
  asmgen::Generator gen(o, sim::data_rng("program"));
  auto p = gen.make();
  j.texts = asmrun::render(p, sim::data_rng("spelling"));
  if (sim::flip(1, 4, "long-source")) {
    for (int i = 0; i < 600; ++i) j.texts[0].text += "  ; padding so that the source takes several reads\n";
    j.texts[0].text += "\n";
  }
  asmrun::place_sources(&j.texts);
  j.rom_file = j.rom.file();
  if (sim::flip(1, 10, "damaged-rom")) j.rom_file.resize(j.rom_file.size() - 1 - sim::choose(0x1ff, "cut"));
  j.identity = allow_identity && sim::flip(1, 4, "identity");
  if (j.identity) {
    j.out = "-";
  } else if (sim::flip(1, 20, "asm-output")) {
    j.out = "/sim/out.asm";
  } else if (allow_identity && sim::flip(1, 12, "in-place")) {
    j.out = kIn;
  }
  if (j.identity && sim::flip(2, 3, "matching")) {
    // A ROM that holds the code already (perhaps with one byte flipped).
    j.identity = false;
    expect(&j);
    if (j.expect_ok) {
      Job patched = j;
      j.rom_file = j.output;
    }
    j.identity = true;
  }
  expect(&j);
  return j;
}

struct Ran {
  bool killed = false;
  int code = 0;
  std::string said;
};

Ran run_tool(const Job& j, long room = -1) {
  std::vector<std::string> args = {"quick_assemble", kIn, j.out};
  for (auto& t : j.texts) args.push_back(t.path);
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  Ran r;
  size_t n = 0;
  for (auto& t : j.texts) n += t.text.size();
  fs::begin_capture(room);
  auto res = sim::run_sut("quick_assemble", [&] { r.code = quick_assemble_main(int(args.size()), argv.data()); },
                          asmrun::budget_for(n) + 400'000'000ull);
  r.said = fs::end_capture();
  r.killed = res.end == sim::End::kKilled;
  if (res.end == sim::End::kExited) r.code = res.exit_code;
  sim::log("quick_assemble -> %s %d: %.300s", r.killed ? "killed" : "exit", r.code, r.said.c_str());
  return r;
}

void put_inputs(const Job& j) {
  fs::put(kIn, j.rom_file);
  for (auto& t : j.texts) fs::put(t.path, bytes(t.text));
}

bool inputs_intact(const Job& j) {
  if (j.out != kIn || fs::mutated().empty()) {
    if (!fs::exists(kIn) || fs::get(kIn) != j.rom_file) return false;
  }
  for (auto& t : j.texts) {
    if (!fs::exists(t.path) || fs::get(t.path) != bytes(t.text)) return false;
  }
  return true;
}

// With `-' as output the tool lists the jump targets with their states.
void check_targets(const std::string& cls, const Job& j, const std::string& said) {
  std::map<uint32_t, std::string> listed;
  size_t b = 0;
  while (b < said.size()) {
    size_t e = said.find('\n', b);
    if (e == std::string::npos) e = said.size();
    std::string line = said.substr(b, e - b);
    b = e + 1;
    unsigned at;
    char mode[32];
    if (sscanf(line.c_str(), " $%x %31s", &at, mode) != 2) continue;
    if (!listed.emplace(at, mode).second) sim::violation((cls + ".targets").c_str(), "%06x is listed twice", at);
  }
  for (auto& t : j.targets) {
    auto it = listed.find(t.first);
    std::string want = asmgen::flags_name(t.second);
    if (it == listed.end()) sim::violation((cls + ".targets").c_str(), "jump target %06x is not listed", t.first);
    if (it->second != want) {
      sim::violation((cls + ".targets").c_str(), "jump target %06x is listed with %s, not %s", t.first, it->second.c_str(), want.c_str());
    }
  }
  if (listed.size() != j.targets.size()) {
    sim::violation((cls + ".targets").c_str(), "%zu targets are listed, there are %zu", listed.size(), j.targets.size());
  }
  if (!listed.empty()) SIM_PROBE("jump targets listed");
}

void check_attempt(const char* prop, const Job& j, const Ran& r, bool had, const Bytes& before) {
  std::string cls(prop);
  bool failed_call = fs::errors_injected() > 0;
  for (auto& m : fs::mutated()) {
    if (m != j.out) sim::violation((cls + ".modified").c_str(), "%s was modified", m.c_str());
  }
  if (!inputs_intact(j)) sim::violation((cls + ".modified").c_str(), "an input file changed");
  if (!j.expect_ok && !fs::mutated().empty()) {
    sim::violation((cls + ".early").c_str(), "%s was modified by a run that cannot succeed: %s",
                   fs::mutated().begin()->c_str(), j.why.c_str());
  }
  if (r.killed) return;
  if (r.code == 0) {
    SIM_PROBE("exit 0");
    if (!j.expect_ok) sim::violation((cls + ".false-success").c_str(), "exit 0 although %s", j.why.c_str());
    if (j.identity) {
      check_targets(cls, j, r.said);
      return;
    }
    if (!fs::exists(j.out) || fs::get(j.out) != j.output) {
      sim::violation((cls + ".incomplete").c_str(), "exit 0, but the output is not the patched ROM (%d calls failed)",
                     fs::errors_injected());
    }
  } else {
    SIM_PROBE("exit nonzero");
    if (j.expect_ok && !failed_call) {
      sim::violation((cls + ".refused").c_str(), "exit %d although no call failed: %.200s", r.code, r.said.c_str());
    }
    if (r.said.empty()) sim::violation((cls + ".silent").c_str(), "exit %d without a diagnostic", r.code);
    if (fs::mutated().empty() && (fs::exists(j.out) != had || (had && fs::get(j.out) != before))) {
      sim::violation((cls + ".early").c_str(), "the previous output is gone");
    }
  }
}

void attempts(const char* prop, bool kills) {
  Job j = make_job(!kills);
  put_inputs(j);
  if (j.out != kIn && sim::flip(1, 2, "previous")) fs::put(j.out, Bytes(sim::flip(1, 2, "longer") ? j.rom_file.size() + 999 : 77, 0xAA));
  int n = int(sim::choose(3 + uint32_t(kills ? sim::size_class() / 2 : 0), "attempts"));
  if (j.out == kIn) {
    n = 0;  // an attempt that fails while writing leaves no input for the next
    SIM_PROBE("patched in place");
  }
  for (int k = 0; k <= n; ++k) {
    bool clean = k == n && n > 0;
    bool had = fs::exists(j.out);
    Bytes before = had ? fs::get(j.out) : Bytes();
    fs::clear_marks();
    fs::set_policy(clean ? fs::Policy() : fs::choose_policy(true, kills, false, 18 + 2 * int(j.texts.size())));
    Ran r = run_tool(j);
    fs::set_policy(fs::Policy());
    sim::evaluated();
    sim::nontrivial();
    if (r.killed) SIM_PROBE("killed");
    check_attempt(prop, j, r, had, before);
    if (j.identity && r.code == 0 && !r.said.empty() && sim::flip(1, 4, "full-output")) {
      uint32_t room = sim::choose(uint32_t(r.said.size()), "room");
      SIM_FAULT("stdout:no-space");
      if (run_tool(j, room).code == 0) {
        sim::violation((std::string(prop) + ".lost").c_str(),
                       "exit 0 although only %u of the %zu bytes of the output could be written", room, r.said.size());
      }
    }
    if (clean && j.expect_ok && r.code != 0) {
      sim::violation((std::string(prop) + ".not-repeatable").c_str(), "a clean run after %d attempts fails: %.200s", n,
                     r.said.c_str());
    }
  }
}

}  // namespace

SIM_SCENARIO(T01, quick_assemble, 1) { attempts("T01", false); }
SIM_SCENARIO(R05, quick_assemble, 1) { attempts("R05", true); }
