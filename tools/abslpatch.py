"""A copy of the system's Abseil headers with the std:: types turned on (what the
project is written against) and with hash-table iteration order under the
simulator's control instead of the address space's."""
import glob
import os
import re
import shutil

SRC = "/usr/include/absl"
VERSION = "3"


def sub(text, old, new, count=1):
    if text.count(old) < 1:
        raise RuntimeError("Abseil header differs from what was expected: " + old[:60])
    return text.replace(old, new, count)


def prepare(build):
    """Returns (include directory, cache key)."""
    from build import sha, read
    key = sha(VERSION, read(SRC + "/base/options.h"), read(SRC + "/container/internal/raw_hash_set.h"),
              read(SRC + "/hash/internal/hash.h"), read(SRC + "/strings/str_cat.h"))
    dst = os.path.join(build, "absl-" + key)
    if not os.path.exists(dst):
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.copytree(SRC, tmp + "/absl")
        p = tmp + "/absl/base/options.h"
        s = open(p).read()
        for t in ("ANY", "OPTIONAL", "STRING_VIEW", "VARIANT"):
            s = sub(s, "#define ABSL_OPTION_USE_STD_%s 0" % t, "#define ABSL_OPTION_USE_STD_%s 1" % t)
        open(p, "w").write(s)

        p = tmp + "/absl/container/internal/raw_hash_set.h"
        s = open(p).read()
        s = sub(s, "return reinterpret_cast<uintptr_t>(ctrl) >> 12;",
                "return ::sim::block_salt(ctrl);")
        s = sub(s, "bool ShouldInsertBackwards(size_t hash, const ctrl_t* ctrl);",
                "inline size_t SimPerTableSalt(const ctrl_t* ctrl) { return ::sim::block_salt(ctrl); }\n"
                "inline bool SimInsertBackwards(size_t hash, const ctrl_t* ctrl) {\n"
                "  size_t s = SimPerTableSalt(ctrl);\n"
                "  return s != 0 && ((hash >> 7) ^ s) % 13 > 6;\n}")
        s = sub(s, "ShouldInsertBackwards(hash, ctrl)) {", "SimInsertBackwards(hash, ctrl)) {")
        s = sub(s, "extern template FindInfo find_first_non_full(const ctrl_t*, size_t, size_t);", "")
        s = sub(s, "namespace absl {",
                "namespace sim { uint32_t block_salt(const void*); }\nnamespace absl {")
        open(p, "w").write(s)

        p = tmp + "/absl/hash/internal/hash.h"
        s = open(p).read()
        s = re.sub(r"static uint64_t Seed\(\) \{.*?#endif\n  \}",
                   "static uint64_t Seed() { return 0x243f6a8885a308d3ull; }", s, count=1, flags=re.S)
        if "0x243f6a8885a308d3ull" not in s:
            raise RuntimeError("hash.h: Seed() not found")
        open(p, "w").write(s)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp)
    return dst, key
