// R08 with the assembler and the disassembler as jobs.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "disrun.h"
#include "jobs.h"
#include "nsasm/rom.h"
#include "rommodel.h"
#include "sim/fs.h"
#include "sim/sim.h"

namespace {

namespace fs = sim::fs;
using asmrun::num;
using asmrun::Text;
using disrun::Image;
using model::Bytes;
using model::RomFile;

// Only sees its own bytes; keeps no state of the simulator.
class Recorder : public nsasm::OutputSink {
 public:
  explicit Recorder(std::string* log) : log_(log) {}
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    jobs::digest(log_, a.ToString().c_str(), d.data(), d.size());
    return {};
  }

 private:
  std::string* log_;
};

class Bytesource : public nsasm::InputSource {
 public:
  explicit Bytesource(const Image* im) : im_(im) {}
  std::string Path() const override { return "/sim/image"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address address, int length) const override {
    std::vector<uint8_t> v;
    for (int i = 0; i < length; ++i) {
      auto b = im_->at(cpu::wrap(num(address), i));
      if (!b) return nsasm::Error("%06x is not mapped", num(address));
      v.push_back(*b);
    }
    return v;
  }

 private:
  const Image* im_;
};

void tell(std::string* log, const nsasm::Assembler& a, const std::vector<uint32_t>& ask) {
  for (auto& t : a.JumpTargets()) *log += "target " + t.first.ToString() + " " + t.second.ToString() + "\n";
  for (auto x : ask) {
    *log += a.Contains(nsasm::Address(x)) ? "+" : "-";
    *log += a.NameForAddress(nsasm::Address(x)).has_value() ? "n" : ".";
  }
  *log += "\n";
}

jobs::Job assemble_job(int id) {
  auto o = asmgen::choose_options(!sim::flip(1, 5, "flawed"), 2);
  o.routines = 1;
  o.body = 4;
  bool rom = sim::flip(1, 3, "into-rom");
  o.rom = rom;
  asmgen::Generator gen(o, sim::data_rng("program"));
  auto texts = asmrun::render(gen.make(), sim::data_rng("spelling"));
  bool from_disk = rom || sim::flip(1, 3, "from-disk");
  std::string dir = "/sim/job" + std::to_string(id) + "/";
  RomFile r = model::make_rom(false);
  std::string in = dir + "in.sfc", out = dir + "out.sfc";
  std::vector<uint32_t> ask;
  sim::Rng g = sim::data_rng("ask");
  for (int i = 0; i < 20; ++i) ask.push_back(uint32_t(g.below(4)) << 16 | 0x8000 | g.below(64));
  asmrun::log_text(texts);
  jobs::Job j;
  j.prepare = [=] {
    if (from_disk) {
      for (auto& t : texts) fs::put(dir + t.path, Bytes(t.text.begin(), t.text.end()));
    }
    if (rom) {
      fs::put(in, r.file());
      fs::erase(out);
    }
  };
  j.run = [=](std::string* log) {
    std::vector<nsasm::File> files;
    for (auto& t : texts) {
      if (!from_disk) {
        files.push_back(nsasm::MakeFakeFile(t.path, t.text));
        continue;
      }
      auto f = nsasm::OpenFile(dir + t.path);
      if (!f.ok()) {
        *log += "open: " + f.error().ToString() + "\n";
        return;
      }
      files.push_back(*std::move(f));
    }
    std::unique_ptr<nsasm::OutputSink> sink;
    nsasm::RomOverwriter* over = nullptr;
    if (rom) {
      auto l = nsasm::LoadRomFile(in);
      if (!l.ok()) {
        *log += "load: " + l.error().ToString() + "\n";
        return;
      }
      auto w = std::make_unique<nsasm::RomOverwriter>(*std::move(l));
      over = w.get();
      sink = std::move(w);
    } else {
      sink = std::make_unique<Recorder>(log);
    }
    auto a = nsasm::Assemble(files, sink.get());
    if (!a.ok()) {
      *log += "error: " + a.error().ToString() + "\n";
      return;
    }
    *log += "assembled\n";
    tell(log, *a, ask);
    if (over) {
      auto e = over->CreateFile(out);
      *log += e.ok() ? "created\n" : "create: " + e.error().ToString() + "\n";
    }
  };
  j.finish = [=](std::string* log) {
    if (!rom || !fs::exists(out)) return;
    Bytes b = fs::get(out);
    jobs::digest(log, "output", b.data(), b.size());
  };
  return j;
}

jobs::Job disassemble_job(int) {
  auto im = std::make_shared<Image>();
  sim::Rng g = sim::data_rng("image");
  im->salt = g.next();
  im->everywhere = sim::flip(1, 3, "bytes-everywhere");
  disrun::RawCode code(im.get(), g);
  code.make(1 + int(sim::choose(2, "raw-routines")), 8);
  std::map<nsasm::Address, nsasm::ReturnConvention> conv;
  for (auto a : im->callees) {
    if (sim::flip(1, 4, "convention")) {
      conv.emplace(nsasm::Address(a), nsasm::ReturnConvention(disrun::to_flags(disrun::entry_flags())));
    }
  }
  jobs::Job j;
  j.run = [=](std::string* log) {
    nsasm::Disassembler d(std::make_unique<Bytesource>(im.get()));
    d.AddTargetReturnConventions(conv);
    std::vector<std::pair<uint32_t, nsasm::StatusFlags>> work;
    for (auto& e : im->entries) work.push_back({e.at, disrun::to_flags(e.flags)});
    std::set<uint32_t> seen;
    for (size_t i = 0; i < work.size() && i < 8; ++i) {
      auto r = d.Disassemble(nsasm::Address(work[i].first), work[i].second);
      if (!r.ok()) {
        *log += r.error().ToString() + "\n";
        continue;
      }
      for (auto& t : *r) {
        *log += "target " + t.first.ToString() + " " + t.second.ToString() + "\n";
        if (seen.insert(num(t.first)).second) work.push_back({num(t.first), t.second});
      }
    }
    if (!d.Cleanup().ok()) *log += "clean-up failed\n";
    for (auto& n : d.Result()) {
      *log += n.first.ToString() + " " + n.second.label + ": " + n.second.instruction.ToString() + " ; " +
              n.second.current_execution_state.Flags().ToString() + "\n";
    }
  };
  return j;
}

}  // namespace

SIM_SCENARIO(R08, language_jobs, 1) {
  std::vector<jobs::Job> js;
  int n = 2 + int(sim::choose(2, "jobs"));
  for (int i = 0; i < n; ++i) js.push_back(sim::flip(1, 2, "disassemble?") ? disassemble_job(i) : assemble_job(i));
  jobs::compare(js);
}
