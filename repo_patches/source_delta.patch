From 72e32046c067de44ae3bb06450b7fa9e083d1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 01/43] fix: RomOverwriter copies the image of the ROM it took
 over

The constructor read the image through the unique_ptr parameter after moving
from it, so every RomOverwriter dereferenced a null pointer.
---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From b004fc5314f8bbdd1eed0bb220f9147b6da88b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 02/43] fix: RomOverwriter::Write rejects the byte just past
 the image

The bounds check let an index equal to the image size through, writing one
byte past the end of the buffer.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..3264b23 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -175,7 +175,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From 4ac8e3287277b40242247174ccc9c795ec0f7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 03/43] fix: ExHiROM maps banks $80-$ff to the first 4 MiB

Address bit 23 was tested after the bank had been masked to six bits, so it
was always clear and every ExHiROM address mapped past 4 MiB.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 3264b23..d0c2ff5 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From 3d74d8da0b5793897aab9fb28c172d755b4fdc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 04/43] fix: close the ROM file when reading or writing it
 fails

LoadRomFile and RomOverwriter::CreateFile leaked the FILE* on a short header
read and on failed header and payload writes.
---
 nsasm/rom.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index d0c2ff5..b827819 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -117,6 +117,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     header.resize(0x200);
     int bytes_read = fread(&header[0], 1, 0x200, f);
     if (bytes_read != 0x200) {
+      fclose(f);
       return Error("Failed to read file").SetLocation(path);
     }
     file_size -= 0x200;
@@ -193,11 +194,13 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
   if (!rom_->header_.empty()) {
     size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
     if (written != 0x200) {
+      fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
   size_t written = fwrite(&data_[0], 1, data_.size(), f);
   if (written != data_.size()) {
+    fclose(f);
     return Error("Failed to write payload").SetLocation(path);
   }
   if (fclose(f) != 0) {
-- 
2.43.0


From 86a5f7af69cef2100f210295043802fa1ec13611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 05/43] fix: a 4 MiB HiROM image is HiROM, not ExHiROM

Only images larger than 4 MiB need the extended map; with it, most of a 4 MiB
image cannot be addressed.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index b827819..5c1c640 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -140,7 +140,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   if (maybe_lorom) {
     return std::make_unique<Rom>(kLoRom, path, std::move(header),
                                  std::move(data));
-  } else if (file_size < 0x400000) {
+  } else if (file_size <= 0x400000) {
     return std::make_unique<Rom>(kHiRom, path, std::move(header),
                                  std::move(data));
   } else {
-- 
2.43.0


From 0bef549a36c53c44b62465092fc1c8d7209edae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 06/43] fix: Rom::Read of more than a bank returns all the
 bytes

A read of more than 64 KiB whose last address lies above its first took the
contiguous path and returned only the bytes between the two.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 5c1c640..b34b65b 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -47,7 +47,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (*last_address > *first_address && length <= 0x10000) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From d181a90c323d2b66171b41d38a817df2ae55ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 07/43] fix: quick_dump reports the error of a failed read

It asked the successfully loaded ROM for its error, which is a bad variant
access.
---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From 7963807ade71c5714be3bfed3f583167fa40fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 08/43] fix: do not index an empty buffer when a ROM file is
 only a header

A 0x200-byte file leaves no image bytes; &data[0] is then out of bounds and
aborts where the standard library checks it.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index b34b65b..d52dcc5 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -124,7 +124,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   }
   std::vector<uint8_t> data;
   data.resize(file_size);
-  int bytes_read = fread(&data[0], 1, file_size, f);
+  int bytes_read = fread(data.data(), 1, file_size, f);
   fclose(f);
   if (bytes_read != file_size || file_size < 0x10000) {
     return Error("Failed to read file e").SetLocation(path);
-- 
2.43.0


From 32d75d98bcb83724759850b791a28f109fcef3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 09/43] fix: report out-of-range .org and .remote addresses,
 allow any .equ value

A constant that is negative or wider than 24 bits tripped the assertion in
the Address constructor.
---
 nsasm/module.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..ec4a854 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -257,6 +257,9 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
+      if (*v < 0 || *v > 0xffffff) {
+        return Error("Address %d out of range", *v).SetLocation(dir->location);
+      }
       pc = nsasm::Address(*v);
     }
     int statement_size = line.statement.SerializedSize();
@@ -358,6 +361,10 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
+      if (*arg_val < 0 || *arg_val > 0xffffff) {
+        return Error("Address %d out of range", *arg_val)
+            .SetLocation(directive->location);
+      }
       Address address(*arg_val);
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
@@ -391,6 +398,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
+    if (line.value->ToInt() < 0 || line.value->ToInt() > 0xffffff) {
+      continue;  // a constant that is not an address
+    }
     nsasm::Address address = line.value->ToAddress();
     if (!address_to_global_.contains(address)) {
       address_to_global_[address] = node.first;
-- 
2.43.0


From 611f7a2fe4d83da09158a8e10e9a6450a9b12f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 10/43] fix: handle branch and jump targets outside the 24-bit
 range

A relative target out of range is an error; a long jump goes where its three
encoded bytes say.  Both tripped the assertion in the Address constructor.
---
 nsasm/instruction.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..590e8e8 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -481,6 +481,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Relative branch target %d out of range", *val1);
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(2);
     auto offset = target.SubtractWrapped(branch_base);
@@ -495,6 +498,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Relative branch target %d out of range", *val1);
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(3);
     auto offset = target.SubtractWrapped(branch_base);
@@ -512,7 +518,7 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
-- 
2.43.0


From 43e0032a7f2f20b69fe80aa9cb2331cd146d2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 11/43] fix: do not drop the statements after an empty one on a
 line

---
 nsasm/parse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index c2431f6..5b84789 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -545,7 +545,9 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
     }
 
     if (AtEnd(&tokens)) {
-      return result_vector;
+      // An empty statement; others may follow it after a colon.
+      tokens.remove_prefix(1);
+      continue;
     }
 
     // pseudo scope operators
-- 
2.43.0


From 4b6861bfa99560a10953a73e3a45834b4226cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 12/43] fix: pulling a register of unknown size crashed the
 analysis

An empty stack was read past its end, and the value of a variable-size entry
was fetched through an accessor that only allows literal bytes.
---
 nsasm/execution_state.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..f24e777 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -301,6 +301,9 @@ struct StackValue {
   bool IsVarSize() const {
     return type_ == T_a_varsize || type_ == T_x_varsize || type_ == T_y_varsize;
   }
+  // Returns true iff this holds the unchanged original value of a register of
+  // unknown size.
+  bool IsVarSizeOriginal() const { return IsVarSize() && value_ == 1; }
 
   bool operator==(const StackValue& rhs) const {
     if (type_ != rhs.type_) {
@@ -391,7 +394,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
@@ -430,7 +434,7 @@ class Stack {
     } else if (bit == B_original) {
       StackValue result = PullVarsize();
       if (result.type() == var_byte_type) {
-        if (result.value() == 1) {
+        if (result.IsVarSizeOriginal()) {
           // holds original value
           return RegisterValue(RegisterValue::T_original);
         } else {
-- 
2.43.0


From 3eb06d2da6f96465e0e14c29912d0eabce13bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 13/43] fix: merge processor states when analysis reaches a
 line again

The state of a later visit replaced the state of the earlier ones, so operand
widths and jump target flags reflected only the last path analysed, and loops
whose state changed from pass to pass were analysed for ever.
---
 nsasm/module.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index ec4a854..832fdc8 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -201,9 +201,13 @@ ErrorOr<void> Module::RunFirstPass() {
       return Error("Execution continues past end of file");
     }
     Line& line = lines_[node.first];
-    const ExecutionState& current_state = node.second;
+    ExecutionState current_state = node.second;
+    if (line.reached) {
+      // we've been here before; weaken the state to cover both visits
+      current_state |= line.incoming_state;
+    }
     if (line.reached && line.incoming_state == current_state) {
-      // we've been here before under these conditions; nothing more to do
+      // this visit adds nothing new; nothing more to do
       decode_stack.erase(decode_stack.begin());
       continue;
     }
-- 
2.43.0


From ed9fa0ef1308abad9c309f5971aad590daf23ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 14/43] fix: track PHB, PHD, PHK, PLB and PLD in the stack
 analysis

They left the modelled stack unchanged, so that PLP after one of them restored
the wrong flags.
---
 nsasm/instruction.cc | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 590e8e8..16f008c 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -356,6 +356,41 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Instructions that push or pull registers whose values are not analyzed,
+  // other than the data bank register.
+  if (m == M_phb) {
+    es->GetStack().PushDBR(es->DataBankRegister());
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_plb) {
+    StackValue value = es->GetStack().PullByte();
+    if (value.type() == StackValue::T_byte) {
+      es->DataBankRegister() = value.value();
+    } else if (value.type() == StackValue::T_dbr) {
+      es->DataBankRegister() = RegisterValue(RegisterValue::T_original);
+    } else {
+      es->DataBankRegister() = RegisterValue();
+    }
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From 6935babbc829e03ced47c599efe74b96c3f18f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 15/43] fix: .remote has a name

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From 45af6ed885464b80f907fbc86286f568db7d8fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 16/43] fix: XCE does not turn the original carry into the
 original e flag

---
 nsasm/execution_state.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index f24e777..9127cbc 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -85,12 +85,13 @@ class StatusFlags {
   void SetCBit(BitState state) { c_bit_ = state; }
 
   // Modify this flag state to represent an "incoming" state to a subroutine.
-  // All "unknown" bits become "original".
+  // All "unknown" bits become "original".  (Except `c`, whose original value is
+  // never asked for; an "original" `e` exchanged into `c` must stay the only
+  // way for `c` to be "original", so that XCE only ever restores an `e`.)
   void SetIncoming() {
     if (e_bit_ == B_unknown) e_bit_ = B_original;
     if (m_bit_ == B_unknown) m_bit_ = B_original;
     if (x_bit_ == B_unknown) x_bit_ = B_original;
-    if (c_bit_ == B_unknown) c_bit_ = B_original;
   }
 
   void ExchangeCE() {
-- 
2.43.0


From 7342ccb2ce2bfc91e49125a095d69208d5be97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 17/43] fix: choose label names in source order, not hash table
 order

---
 nsasm/module.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 832fdc8..bc0c2ac 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -1,5 +1,6 @@
 #include "nsasm/module.h"
 
+#include <algorithm>
 #include <fstream>
 
 #include "absl/strings/str_format.h"
@@ -396,8 +397,15 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       }
     }
   }
+  // Visit names in source order, so that the outcome doesn't depend on hash
+  // table iteration order.
+  std::vector<std::pair<int, std::string>> globals;
   for (const auto& node : global_to_line_) {
-    const Line& line = lines_[node.second];
+    globals.emplace_back(node.second, node.first);
+  }
+  std::sort(globals.begin(), globals.end());
+  for (const auto& node : globals) {
+    const Line& line = lines_[node.first];
     if (!line.value.has_value()) {
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
@@ -407,7 +415,7 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     }
     nsasm::Address address = line.value->ToAddress();
     if (!address_to_global_.contains(address)) {
-      address_to_global_[address] = node.first;
+      address_to_global_[address] = node.second;
     }
   }
   return {};
-- 
2.43.0


From dd62f89cccfa6893b643618fb1c6f82cb22e7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 18/43] fix: arithmetic on extreme values wraps instead of
 trapping

---
 nsasm/expression.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..99295c0 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -24,15 +24,27 @@ struct BinaryOp {
 };
 
 inline BinaryOp MakePlusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a + b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    // Wraps on overflow.
+    return static_cast<int>(static_cast<unsigned>(a) +
+                            static_cast<unsigned>(b));
+  };
   return BinaryOp(op, '+');
 }
 inline BinaryOp MakeMinusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a - b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    // Wraps on overflow.
+    return static_cast<int>(static_cast<unsigned>(a) -
+                            static_cast<unsigned>(b));
+  };
   return BinaryOp(op, '-');
 }
 inline BinaryOp MakeMultiplyOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a * b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    // Wraps on overflow.
+    return static_cast<int>(static_cast<unsigned>(a) *
+                            static_cast<unsigned>(b));
+  };
   return BinaryOp(op, '*');
 }
 inline BinaryOp MakeDivideOp() {
@@ -40,6 +52,10 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
+    if (b == -1) {
+      // Wraps on overflow.
+      return static_cast<int>(0u - static_cast<unsigned>(a));
+    }
     return a / b;
   };
   return BinaryOp(op, '/');
@@ -59,7 +75,10 @@ struct UnaryOp {
 };
 
 inline UnaryOp MakeNegateOp() {
-  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> { return -a; };
+  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> {
+    // Wraps on overflow.
+    return static_cast<int>(0u - static_cast<unsigned>(a));
+  };
   UnaryOp::TypeFnPtr tfn = [](NumericType t) { return Signed(t); };
   return UnaryOp(fn, tfn, '-');
 }
-- 
2.43.0


From d8148262769f743e0f892d5518ff3f6e92810f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 19/43] fix: reject branches to a label that an .equ gives
 another value

---
 nsasm/module.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index bc0c2ac..dcb32ee 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -234,6 +234,11 @@ ErrorOr<void> Module::RunFirstPass() {
                      nsasm::ToString(ins.mnemonic), *target)
             .SetLocation(ins.location);
       }
+      if (lines_[*target_index].statement == D_equ) {
+        return Error("Target for `%s %s` is an .equ value, not a location",
+                     nsasm::ToString(ins.mnemonic), *target)
+            .SetLocation(ins.location);
+      }
       next_state = current_state;
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(ins.ExecuteBranch(&next_state),
                                           line.statement.Location());
-- 
2.43.0


From 0e12ee4d8357224cef82b6ce4573f1eb123a2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 20/43] fix: reject expressions too long for the recursive
 parser

---
 nsasm/parse.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 5b84789..f9a5507 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -89,7 +89,25 @@ ErrorOr<StatusFlags> Mode(TokenSpan* pos) {
   return *status_flags;
 }
 
+// Expressions are parsed, evaluated and destroyed recursively, so a limit on
+// their length bounds the stack space they need.
+constexpr int kMaxExpressionTokens = 1000;
+
+ErrorOr<void> CheckExpressionLength(const TokenSpan* pos) {
+  int length = 0;
+  for (const Token& token : *pos) {
+    if (token.EndOfLine() || token == ':' || token == ',') {
+      break;
+    }
+    if (++length > kMaxExpressionTokens) {
+      return Error("Expression is too long").SetLocation(Loc(pos));
+    }
+  }
+  return {};
+}
+
 ErrorOr<ExpressionOrNull> Expr(TokenSpan* pos) {
+  NSASM_RETURN_IF_ERROR(CheckExpressionLength(pos));
   auto term_or_error = Term(pos);
   NSASM_RETURN_IF_ERROR(term_or_error);
   ExpressionOrNull term = std::move(*term_or_error);
-- 
2.43.0


From d42362dc39c0b26a82089471f9198487c0700307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 21/43] fix: quick_assemble exits nonzero when it cannot write
 the output

---
 util/quick_assemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index 35edc55..d350f7c 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -67,6 +67,7 @@ int main(int argc, char** argv) {
     auto write_status = overwriter.CreateFile(output_path);
     if (!write_status.ok()) {
       absl::PrintF("Error writing file: %s\n", write_status.error().ToString());
+      return 1;
     }
   }
   // assembler.DebugPrint();
-- 
2.43.0


From 3c8571a6af59586cd079fcd12b58ec107d6d81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 22/43] fix: report a failed read when the disassembler reaches
 an address again

---
 nsasm/disassemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 51e3d2f..d89903a 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -161,6 +161,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // (We can throw the answer away if so, since we've already disassembled
         // this instruction before.)
         auto instruction_data = src_->Read(pc, 4);
+        NSASM_RETURN_IF_ERROR_WITH_LOCATION(instruction_data, src_->Path(), pc);
         NSASM_RETURN_IF_ERROR_WITH_LOCATION(
             Decode(*instruction_data, combined_execution_state.Flags()),
             src_->Path(), pc);
-- 
2.43.0


From 8ed54acd90ff53cf9016bfcfdb409bd4719ef867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 23/43] fix: a failed disassembly leaves no entry point or
 label number behind

---
 nsasm/disassemble.cc | 12 ++++++++----
 nsasm/disassemble.h  |  2 --
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index d89903a..c378328 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -37,7 +37,8 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
 
   // Mapping of instruction addresses to jump target label name
   std::map<nsasm::Address, std::string> label_names;
-  auto get_label = [this, &label_names](nsasm::Address address) {
+  int new_sym = current_sym_;
+  auto get_label = [this, &label_names, &new_sym](nsasm::Address address) {
     // Is address in label map?
     auto it = label_names.find(address);
     if (it != label_names.end()) {
@@ -49,7 +50,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
       return it2->second.label;
     }
     // Never before seen; generate a name now.
-    return label_names[address] = GenSym();
+    return label_names[address] = absl::StrCat("gensym", ++new_sym);
   };
 
   // Map of locations to consider next, and the execution state to use
@@ -80,8 +81,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
-  // ensure entry point is marked, and has a label
-  entry_points_.insert(starting_address);
+  // ensure entry point has a label
   get_label(starting_address);
 
   while (!decode_stack.empty()) {
@@ -202,6 +202,10 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
 
   // If we got here, disassembly was a success.
 
+  // Mark the entry point, and keep the names that were generated.
+  entry_points_.insert(starting_address);
+  current_sym_ = new_sym;
+
   // Add a suffix to each new disassembly instruction that supports one.
   for (auto& node : new_disassembly) {
     Instruction& ins = node.second.instruction;
diff --git a/nsasm/disassemble.h b/nsasm/disassemble.h
index efcaa8b..d5b3d99 100644
--- a/nsasm/disassemble.h
+++ b/nsasm/disassemble.h
@@ -57,8 +57,6 @@ class Disassembler {
  private:
   absl::optional<std::string> NameForAddress(nsasm::Address address);
 
-  std::string GenSym() { return absl::StrCat("gensym", ++current_sym_); }
-
   std::unique_ptr<InputSource> src_;
   std::set<nsasm::Address> entry_points_;
   std::map<nsasm::Address, DisassembledInstruction> disassembly_;
-- 
2.43.0


From 94e5f1914524f2d1f9c5a46803e89a2c6352d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 24/43] fix: drop an instruction's suffix when its flag is no
 longer known

---
 nsasm/disassemble.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index c378328..da2151b 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -210,6 +210,8 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   for (auto& node : new_disassembly) {
     Instruction& ins = node.second.instruction;
     const StatusFlags& flags = node.second.current_execution_state.Flags();
+    // Drop a suffix from an earlier visit; it may not apply any longer.
+    ins.suffix = S_none;
     StatusFlagUsed flag_used = FlagControllingInstructionSize(ins.mnemonic);
     if (flag_used == kUsesMFlag) {
       if (flags.MBit() == B_on) {
-- 
2.43.0


From c4dbcd819138da575d96d22c3d984fa9f12acc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 25/43] fix: enter far targets in the caller's state, not in
 the state a call yields

---
 nsasm/disassemble.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index da2151b..2e750a6 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -181,10 +181,13 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         if (!di.instruction.IsExitInstruction()) {
           add_to_decode_stack(next_pc, next_execution_state);
         }
-        // ... the far branch target ...
+        // ... the far branch target (whose state does not depend on the return
+        // convention, which applies only once the subroutine has returned) ...
         auto far_branch_address = di.instruction.FarBranchTarget(pc);
         if (far_branch_address.has_value()) {
-          add_far_branch(*far_branch_address, next_execution_state);
+          auto far_branch_state = combined_execution_state;
+          far_branch_state.Flags().SetCBit(B_unknown);
+          add_far_branch(*far_branch_address, far_branch_state);
         }
         // ... and the local branch target.
         if (di.instruction.IsLocalBranch()) {
-- 
2.43.0


From 7778886fc808e523f3e4a6a12a33ca38985453c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 26/43] fix: fold CLC/ADC and SEC/SBC only where one follows
 the other

---
 nsasm/disassemble.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 2e750a6..bcd8648 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -296,6 +296,11 @@ ErrorOr<void> Disassembler::Cleanup() {
     if (next_iter == disassembly_.end()) {
       break;
     }
+    if (next_iter->first != iter->first.AddWrapped(1)) {
+      // The next entry does not follow a one-byte instruction here.
+      iter = next_iter;
+      continue;
+    }
     if (iter->second.instruction.mnemonic == M_clc &&
         next_iter->second.instruction.mnemonic == M_adc &&
         next_iter->second.label.empty()) {
-- 
2.43.0


From 880d772c8b0529ffb1d972113fad71b08bb4fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 27/43] fix: disassemble_more reads from a ROM of its own, not
 a moved-from one

---
 util/disassemble_more.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1346a4f..2d4ec71 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -58,7 +58,13 @@ int main(int argc, char** argv) {
   std::map<nsasm::Address, nsasm::ReturnConvention> return_conventions =
       assembler->JumpTargetReturnConventions();
 
-  nsasm::Disassembler disassembler(*std::move(rom));
+  // The sink took over the ROM loaded above; load it again for reading.
+  auto source_rom = nsasm::LoadRomFile(argv[1]);
+  if (!source_rom.ok()) {
+    absl::PrintF("Error loading ROM: %s\n", source_rom.error().ToString());
+    return 1;
+  }
+  nsasm::Disassembler disassembler(*std::move(source_rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
   for (int pass = 0; pass < 100; ++pass) {
-- 
2.43.0


From 4cf7166f313bf253e98f59c06c57d828373be70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 28/43] fix: quick_disassemble rejects missing and out-of-range
 addresses

---
 util/quick_disassemble.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 09a3fc4..274c148 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -55,7 +55,7 @@ int main(int argc, char** argv) {
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (!sscanf(address, "%x", &rd_address)) {
+    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffffu) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From 5b2110f3af1e4f3094339b28abf9a8eaaec92275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 29/43] fix: the carry bit known at a jump leaked into the
 target's entry state

disassemble_more printed it as '.entry m8x8, c=0', which cannot be
assembled.
---
 nsasm/module.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index dcb32ee..f20eca9 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -392,12 +392,15 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
           instruction->FarBranchTarget(line.value->ToAddress());
       if (branch_target.has_value()) {
         // FarBranchTarget() does not perform lookup, so if we have a value,
-        // this is our branch target.
+        // this is our branch target.  As in the disassembler, what is known
+        // about the carry bit is not passed on (and has no name in source).
+        StatusFlags target_state = line.incoming_state.Flags();
+        target_state.SetCBit(B_unknown);
         auto it = unnamed_targets_.find(*branch_target);
         if (it == unnamed_targets_.end()) {
-          unnamed_targets_[*branch_target] = line.incoming_state.Flags();
+          unnamed_targets_[*branch_target] = target_state;
         } else {
-          it->second |= line.incoming_state.Flags();
+          it->second |= target_state;
         }
       }
     }
-- 
2.43.0


From 21d20094e53f7b75704542efd2c554212710b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 30/43] fix: quick_disassemble ignored the mode of an address
 named twice

---
 util/quick_disassemble.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 274c148..3b547f1 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -67,7 +67,7 @@ int main(int argc, char** argv) {
       }
       rd_address = *indirect_address;
     }
-    seeds.emplace(nsasm::Address(rd_address), *parsed_flag);
+    CombineStates(&seeds, {{nsasm::Address(rd_address), *parsed_flag}});
   }
 
   nsasm::Disassembler disassembler(std::move(*rom));
-- 
2.43.0


From 30836de363b2768f85506f0890a08b27c17383e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 31/43] fix: quick_disassemble took malformed addresses for
 other ones

---
 util/quick_disassemble.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 3b547f1..3862784 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -1,5 +1,6 @@
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
@@ -37,6 +38,10 @@ int main(int argc, char** argv) {
     usage(argv[0]);
     return 0;
   }
+  if (argc % 2 != 0) {  // an address without a mode
+    usage(argv[0]);
+    return 1;
+  }
 
   auto rom = nsasm::LoadRomFile(argv[1]);
   if (!rom.ok()) {
@@ -51,11 +56,12 @@ int main(int argc, char** argv) {
       absl::PrintF("%s does not name a processor mode\n", argv[idx + 1]);
       return 1;
     }
-    unsigned rd_address;
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffffu) {
+    char* address_end;
+    unsigned long rd_address = strtoul(address, &address_end, 16);
+    if (address_end == address || *address_end || rd_address > 0xffffffu) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From 73e20238c744820be417f7498cd750e720cd2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 32/43] fix: locate errors about what follows an instruction in
 the source

`lda $12 yields m8` was refused without saying where, and trailing tokens
after `jsr $1234 yields m8` were reported as a logic error with no location.
---
 nsasm/parse.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index f9a5507..cce911c 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -435,6 +435,7 @@ ErrorOr<ReturnConvention> ParseReturnConvention(TokenSpan* pos) {
 }
 
 ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
+  const Location location = Loc(pos);
   ErrorOr<Instruction> result = ParseInstructionCore(pos);
   NSASM_RETURN_IF_ERROR(result);
   auto return_convention = ParseReturnConvention(pos);
@@ -442,9 +443,11 @@ ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
   if (!return_convention->IsDefault() && result->mnemonic != M_jsl &&
       result->mnemonic != M_jsr) {
     return nsasm::Error(
-        "return calling convention not supported on instruction %s",
-        nsasm::ToString(result->mnemonic));
+               "return calling convention not supported on instruction %s",
+               nsasm::ToString(result->mnemonic))
+        .SetLocation(location);
   }
+  NSASM_RETURN_IF_ERROR(ConfirmAtEnd(pos, "after instruction"));
   result->return_convention = *return_convention;
   return result;
 }
-- 
2.43.0


From fd1200a9ab5c73d5802b74e1f5c712e0aa609fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 33/43] fix: duplicate definitions across files report real
 line numbers

The location given was an index into the list of statements rather than a
line number, and both places named in the message were in the same file.
---
 nsasm/assembler.cc | 5 +++--
 nsasm/module.cc    | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nsasm/assembler.cc b/nsasm/assembler.cc
index f769bc3..5265d11 100644
--- a/nsasm/assembler.cc
+++ b/nsasm/assembler.cc
@@ -44,8 +44,9 @@ nsasm::ErrorOr<std::vector<Module*>> Assembler::FindAssemblyOrder() {
             return Error(
                        "Duplicate defintion of `%s` "
                        "(conflicting definition at %s)",
-                       node.first.ToString(), node.second.ToString())
-                .SetLocation(exported_names[node.first]);
+                       node.first.ToString(),
+                       exported_names[node.first].ToString())
+                .SetLocation(node.second);
           }
           exported_names[node.first] = node.second;
           name_to_module_map_[node.first] = &module;
diff --git a/nsasm/module.cc b/nsasm/module.cc
index f20eca9..82ca444 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -332,8 +332,7 @@ const std::map<FullIdentifier, Location> Module::ExportedNames() const {
   std::map<FullIdentifier, Location> result;
   for (const auto& node : global_to_line_) {
     FullIdentifier id(module_name_, node.first);
-    Location loc(path_, node.second);
-    result[std::move(id)] = std::move(loc);
+    result[std::move(id)] = lines_[node.second].statement.Location();
   }
   return result;
 }
-- 
2.43.0


From 0a9ab81d4f0c8db36b1fffb120e9d28432cb8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 34/43] fix: locate "execution continues past end of file"

---
 nsasm/module.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 82ca444..cc4335d 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -199,7 +199,9 @@ ErrorOr<void> Module::RunFirstPass() {
     // Consider the earliest statement that needs processing.
     auto& node = *decode_stack.begin();
     if (node.first == lines_.size()) {
-      return Error("Execution continues past end of file");
+      // Only the last statement of the file can lead here.
+      return Error("Execution continues past end of file")
+          .SetLocation(lines_.back().statement.Location());
     }
     Line& line = lines_[node.first];
     ExecutionState current_state = node.second;
-- 
2.43.0


From b597c46c32e56f1b5adcd96ac6ab024f9c45037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 35/43] fix: dumb_disassemble took malformed addresses for
 something else, and read an uninitialised one

---
 util/dumb_disassemble.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ab0ac17..0718c54 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -1,3 +1,4 @@
+#include <cstdlib>
 #include <map>
 
 #include "absl/strings/str_format.h"
@@ -27,9 +28,10 @@ int main(int argc, char** argv) {
     return 1;
   }
 
-  unsigned hex_address;
-  if (!sscanf(argv[2], "%x", &hex_address)) {
-    usage(argv[2]);
+  char* address_end;
+  unsigned long hex_address = strtoul(argv[2], &address_end, 16);
+  if (address_end == argv[2] || *address_end || hex_address > 0xffffffu) {
+    usage(argv[0]);
     return 1;
   }
 
-- 
2.43.0


From ede210f2e6b79161c28b632600e9429b9ea0955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 36/43] fix: dumb_disassemble continued at the target of a BCC
 or BCS with the carry of the other path

---
 util/dumb_disassemble.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 0718c54..04f2979 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -61,6 +61,7 @@ int main(int argc, char** argv) {
     int instruction_bytes =
         nsasm::InstructionLength(instruction->addressing_mode);
     nsasm::Address next_pc = address.AddWrapped(instruction_bytes);
+    nsasm::ExecutionState branch_state = execution_state;
     auto status = instruction->Execute(&execution_state);
     if (!status.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
@@ -69,6 +70,12 @@ int main(int argc, char** argv) {
     }
     std::string local_branch_target;
     if (instruction->IsLocalBranch()) {
+      status = instruction->ExecuteBranch(&branch_state);
+      if (!status.ok()) {
+        absl::PrintF("%s - ERROR: %s\n", address.ToString(),
+                     status.error().ToString());
+        return 1;
+      }
       nsasm::Address target = next_pc.AddWrapped(
           *instruction->arg1.Evaluate(nsasm::NullLookupContext()));
       auto prev_value = local_jumps.find(target);
@@ -79,7 +86,7 @@ int main(int argc, char** argv) {
         local_branch_target +=
             absl::StrFormat(" (was %s)", prev_value->second.Flags().ToString());
       }
-      local_jumps[target] = execution_state;
+      local_jumps[target] = branch_state;
     }
     std::string instruction_string = instruction->ToString();
     absl::PrintF("%s - %30s ; %s%s\n", address.ToString(), instruction_string,
-- 
2.43.0


From 6572ff510886e6628d3dceb73cef63b65a935105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 37/43] fix: dumb_disassemble went on for ever in a bank
 without an exit instruction

---
 util/dumb_disassemble.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 04f2979..32aa220 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -44,6 +44,7 @@ int main(int argc, char** argv) {
   nsasm::Address address(hex_address);
   nsasm::ExecutionState execution_state(*parsed_flag);
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
+  int bytes_shown = 0;
   while (true) {
     auto instruction_data = (*rom)->Read(address, 4);
     if (!instruction_data.ok()) {
@@ -105,6 +106,11 @@ int main(int argc, char** argv) {
       }
       execution_state = next_instruction_it->second;
     }
+    bytes_shown += instruction_bytes;
+    if (bytes_shown > 0xffff) {
+      absl::PrintF("This was the entire bank.\n");
+      break;
+    }
     address = next_pc;
   }
   if (!local_jumps.empty()) {
-- 
2.43.0


From 476b0f3027107f64329cd068f2d5fc6004be37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 38/43] fix: quick_dump took malformed addresses and counts for
 something else, or read uninitialised ones

---
 util/quick_dump.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..e140715 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -1,3 +1,6 @@
+#include <cstdio>
+#include <cstdlib>
+
 #include "absl/strings/str_format.h"
 #include "absl/strings/str_join.h"
 #include "nsasm/rom.h"
@@ -24,23 +27,24 @@ int main(int argc, char** argv) {
     return 1;
   }
 
-  unsigned start;
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  char* start_end;
+  unsigned long start = strtoul(argv[2], &start_end, 16);
+  if (start_end == argv[2] || *start_end || start > 0xffffffu) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From d52f47020183e8b8ed71519e03b9bda20f003515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 39/43] fix: directives: show the return convention of .remote

Directive::ToString() left out the 'yields' or 'noreturn' part of a
.remote directive, so interactive_parse did not show it.
---
 nsasm/directive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 3a85fdc..7774475 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -48,7 +48,8 @@ std::string Directive::ToString() const {
                         }));
     case DT_remote_arg:
       return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
-                          flag_state_argument.ToName());
+                          flag_state_argument.ToName(),
+                          return_convention_argument.ToSuffixString());
   }
   return "???";
 }
-- 
2.43.0


From 1c624874cdaf51799e73812fd60418e011934c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 40/43] fix: quick_dump exited 0 when its output could not be
 written

---
 util/quick_dump.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index e140715..678971b 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -111,5 +111,9 @@ int main(int argc, char** argv) {
     absl::PrintF("%s %s\n", directive, absl::StrJoin(values, ", "));
   }
 
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    perror("Error writing output");
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From 1c10b57bc5fabfc6839b8208784ce18d5eb54aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 41/43] fix: quick_disassemble and disassemble_more exited 0
 when the listing could not be written

---
 util/disassemble_more.cc  | 8 ++++++++
 util/quick_disassemble.cc | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 2d4ec71..fadbbc1 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -1,3 +1,5 @@
+#include <cstdio>
+
 #include "absl/strings/str_format.h"
 #include "nsasm/assembler.h"
 #include "nsasm/disassemble.h"
@@ -122,4 +124,10 @@ int main(int argc, char** argv) {
       pc = pc.AddWrapped(value.second.instruction.SerializedSize());
     }
   }
+
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    perror("Error writing output");
+    return 1;
+  }
+  return 0;
 }
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 3862784..7a394d7 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -129,4 +129,10 @@ int main(int argc, char** argv) {
       pc = pc.AddWrapped(value.second.instruction.SerializedSize());
     }
   }
+
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    perror("Error writing output");
+    return 1;
+  }
+  return 0;
 }
-- 
2.43.0


From 886bfd795387b64e1da5a4cafc2b94efd6fc319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 42/43] fix: dumb_disassemble exited 0 when the listing could
 not be written

---
 util/dumb_disassemble.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 32aa220..307b516 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <cstdlib>
 #include <map>
 
@@ -118,5 +119,10 @@ int main(int argc, char** argv) {
                  local_jumps.begin()->first.ToString(),
                  local_jumps.begin()->second.Flags().ToString());
   }
+
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    perror("Error writing output");
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From d9e2f9b9b163d393d458db2970bb83ab36cf1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 43/43] fix: quick_assemble exited 0 when its report could not
 be written

---
 util/quick_assemble.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index d350f7c..e4cc71a 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -1,3 +1,5 @@
+#include <cstdio>
+
 #include "absl/strings/match.h"
 #include "absl/strings/str_format.h"
 #include "nsasm/assembler.h"
@@ -71,4 +73,10 @@ int main(int argc, char** argv) {
     }
   }
   // assembler.DebugPrint();
+
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    perror("Error writing output");
+    return 1;
+  }
+  return 0;
 }
\ No newline at end of file
-- 
2.43.0

