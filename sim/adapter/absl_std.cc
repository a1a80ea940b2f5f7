// The system's libabsl is built with Abseil's own string_view.  These are the
// functions of it that take a std::string_view (or an object holding one)
// when the headers are configured for the standard types.
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <string_view>

#include "absl/strings/ascii.h"
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include "absl/strings/substitute.h"

namespace absl {
ABSL_NAMESPACE_BEGIN

AlphaNum::AlphaNum(Hex hex) {
  static_assert(numbers_internal::kFastToBufferSize >= 32, "");
  char* const end = &digits_[numbers_internal::kFastToBufferSize];
  char* p = end;
  uint64_t v = hex.value;
  do {
    *--p = "0123456789abcdef"[v & 15];
    v >>= 4;
  } while (v);
  while (end - p < hex.width) *--p = hex.fill;
  piece_ = absl::string_view(p, size_t(end - p));
}
AlphaNum::AlphaNum(Dec dec) {
  char* const end = &digits_[numbers_internal::kFastToBufferSize];
  char* p = end;
  uint64_t v = dec.value;
  bool neg = dec.neg;
  do {
    *--p = char('0' + v % 10);
    v /= 10;
  } while (v);
  if (neg && dec.fill != '0') *--p = '-', neg = false;
  while (end - p < dec.width - (neg ? 1 : 0)) *--p = dec.fill;
  if (neg) *--p = '-';
  piece_ = absl::string_view(p, size_t(end - p));
}

static void Add(std::string* s, std::string_view p) { s->append(p.data(), p.size()); }

std::string StrCat(const AlphaNum& a, const AlphaNum& b) {
  std::string r;
  Add(&r, a.Piece());
  Add(&r, b.Piece());
  return r;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) {
  std::string r = StrCat(a, b);
  Add(&r, c.Piece());
  return r;
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) {
  std::string r = StrCat(a, b, c);
  Add(&r, d.Piece());
  return r;
}
void StrAppend(std::string* s, const AlphaNum& a) { Add(s, a.Piece()); }
void StrAppend(std::string* s, const AlphaNum& a, const AlphaNum& b) {
  Add(s, a.Piece());
  Add(s, b.Piece());
}
void StrAppend(std::string* s, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) {
  StrAppend(s, a, b);
  Add(s, c.Piece());
}
void StrAppend(std::string* s, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c,
               const AlphaNum& d) {
  StrAppend(s, a, b, c);
  Add(s, d.Piece());
}
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> pieces) {
  std::string r;
  for (auto& p : pieces) Add(&r, p);
  return r;
}
void AppendPieces(std::string* dest, std::initializer_list<absl::string_view> pieces) {
  for (auto& p : pieces) Add(dest, p);
}
}  // namespace strings_internal

// ---- splitting ----------------------------------------------------------
static std::string_view End(std::string_view text) {
  return std::string_view(text.data() + text.size(), 0);
}
ByString::ByString(absl::string_view sp) : delimiter_(sp) {}
absl::string_view ByString::Find(absl::string_view text, size_t pos) const {
  if (delimiter_.empty() && !text.empty()) return absl::string_view(text.data() + pos + 1, 0);
  size_t f = text.find(delimiter_, pos);
  return f == text.npos ? End(text) : text.substr(f, delimiter_.size());
}
absl::string_view ByChar::Find(absl::string_view text, size_t pos) const {
  size_t f = text.find(c_, pos);
  return f == text.npos ? End(text) : text.substr(f, 1);
}
ByAnyChar::ByAnyChar(absl::string_view sp) : delimiters_(sp) {}
absl::string_view ByAnyChar::Find(absl::string_view text, size_t pos) const {
  if (delimiters_.empty() && !text.empty()) return absl::string_view(text.data() + pos + 1, 0);
  size_t f = text.find_first_of(delimiters_, pos);
  return f == text.npos ? End(text) : text.substr(f, 1);
}
ByLength::ByLength(ptrdiff_t length) : length_(length) {}
absl::string_view ByLength::Find(absl::string_view text, size_t pos) const {
  pos = std::min(pos, text.size());
  absl::string_view s = text.substr(pos);
  if (s.length() <= size_t(length_)) return End(text);
  return absl::string_view(s.data() + length_, 0);
}

// ---- comparison -----------------------------------------------------------
bool EqualsIgnoreCase(absl::string_view a, absl::string_view b) noexcept {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (ascii_tolower(static_cast<unsigned char>(a[i])) !=
        ascii_tolower(static_cast<unsigned char>(b[i]))) {
      return false;
    }
  }
  return true;
}
bool StartsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p);
}
bool EndsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p);
}

// ---- numbers -----------------------------------------------------------------
namespace numbers_internal {
static bool Parse(std::string_view text, int base, bool* neg, uint64_t* out) {
  text = StripAsciiWhitespace(text);
  *neg = false;
  if (!text.empty() && (text[0] == '-' || text[0] == '+')) {
    *neg = text[0] == '-';
    text.remove_prefix(1);
  }
  bool hex = text.size() > 2 && text[0] == '0' && (text[1] == 'x' || text[1] == 'X');
  if (base == 16 && hex) text.remove_prefix(2);
  if (base == 0) {
    base = hex ? 16 : text.size() > 1 && text[0] == '0' ? 8 : 10;
    if (hex) text.remove_prefix(2);
    if (base == 8) text.remove_prefix(1);
  }
  if (text.empty()) return false;
  uint64_t v = 0;
  for (char c : text) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10
          : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    if (d >= base) return false;
    if (v > (UINT64_MAX - uint64_t(d)) / uint64_t(base)) return false;
    v = v * uint64_t(base) + uint64_t(d);
  }
  *out = v;
  return true;
}
template <typename T>
static bool Store(std::string_view t, T* out, int base) {
  bool neg;
  uint64_t v;
  *out = 0;
  if (!Parse(t, base, &neg, &v)) return false;
  uint64_t max = uint64_t(std::numeric_limits<T>::max());
  if (neg) {
    if (std::is_unsigned<T>::value) return false;
    if (v > max + 1) return false;
    *out = T(0 - v);
    return true;
  }
  if (v > max) return false;
  *out = T(v);
  return true;
}
bool safe_strto32_base(absl::string_view t, int32_t* v, int base) { return Store(t, v, base); }
bool safe_strto64_base(absl::string_view t, int64_t* v, int base) { return Store(t, v, base); }
bool safe_strtou32_base(absl::string_view t, uint32_t* v, int base) { return Store(t, v, base); }
bool safe_strtou64_base(absl::string_view t, uint64_t* v, int base) { return Store(t, v, base); }
}  // namespace numbers_internal

// ---- formatting -----------------------------------------------------------------
namespace str_format_internal {
// FormatArgImpl::Dispatch<T>(Data, spec, out); Data is a union of pointers.
bool dispatch_string(const void* arg, FormatConversionSpecImpl spec, void* out) asm(
    "_ZN4absl7debian319str_format_internal13FormatArgImpl8DispatchINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEEEbNS2_4DataENS1_24FormatConversionSpecImplEPv");
bool dispatch_view(const void* arg, FormatConversionSpecImpl spec, void* out) asm(
    "_ZN4absl7debian319str_format_internal13FormatArgImpl8DispatchISt17basic_string_viewIcSt11char_traitsIcEEEEbNS2_4DataENS1_24FormatConversionSpecImplEPv");
bool dispatch_view(const void* arg, FormatConversionSpecImpl spec, void* out) {
  std::string copy(*static_cast<const std::string_view*>(arg));
  return dispatch_string(&copy, spec, out);
}
}  // namespace str_format_internal

std::string BytesToHexString(absl::string_view from) {
  std::string r;
  for (unsigned char c : from) {
    r += "0123456789abcdef"[c >> 4];
    r += "0123456789abcdef"[c & 15];
  }
  return r;
}

std::string HexStringToBytes(absl::string_view from) {
  std::string r;
  for (size_t i = 0; i + 1 < from.size(); i += 2) {
    r += char(strtol(std::string(from.substr(i, 2)).c_str(), nullptr, 16));
  }
  return r;
}
static std::string Escape(absl::string_view from, bool hex) {
  std::string r;
  for (unsigned char c : from) {
    char b[8] = {char(c), 0};
    switch (c) {
      case '\n': strcpy(b, "\\n"); break;
      case '\r': strcpy(b, "\\r"); break;
      case '\t': strcpy(b, "\\t"); break;
      case '"': case '\'': case '\\': snprintf(b, sizeof b, "\\%c", c); break;
      default:
        if (c < 32 || c > 126) snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c);
    }
    r += b;
  }
  return r;
}
std::string CEscape(absl::string_view from) { return Escape(from, false); }
std::string CHexEscape(absl::string_view from) { return Escape(from, true); }

bool SimpleAtob(absl::string_view s, bool* out) {
  for (const char* t : {"true", "t", "yes", "y", "1"}) {
    if (EqualsIgnoreCase(s, t)) return *out = true;
  }
  *out = false;
  for (const char* t : {"false", "f", "no", "n", "0"}) {
    if (EqualsIgnoreCase(s, t)) return true;
  }
  return false;
}
bool SimpleAtod(absl::string_view s, double* out) {
  std::string t(StripAsciiWhitespace(s));
  char* e;
  *out = strtod(t.c_str(), &e);
  return !t.empty() && !*e;
}
bool SimpleAtof(absl::string_view s, float* out) {
  double d;
  bool ok = SimpleAtod(s, &d);
  *out = float(d);
  return ok;
}

int StrReplaceAll(std::initializer_list<std::pair<absl::string_view, absl::string_view>> with,
                  std::string* target) {
  std::string r;
  int n = 0;
  for (size_t i = 0; i < target->size();) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& w : with) {
      if (!w.first.empty() && target->compare(i, w.first.size(), w.first) == 0 &&
          (!best || w.first.size() > best->first.size())) {
        best = &w;
      }
    }
    if (best) {
      r += best->second;
      i += best->first.size();
      ++n;
    } else {
      r += (*target)[i++];
    }
  }
  *target = r;
  return n;
}
std::string StrReplaceAll(absl::string_view s,
                          std::initializer_list<std::pair<absl::string_view, absl::string_view>> with) {
  std::string r(s);
  StrReplaceAll(with, &r);
  return r;
}

namespace substitute_internal {
Arg::Arg(Hex hex) {
  AlphaNum a(hex);
  piece_ = absl::string_view(scratch_, a.size());
  memcpy(scratch_, a.data(), a.size());
}
Arg::Arg(Dec dec) {
  AlphaNum a(dec);
  piece_ = absl::string_view(scratch_, a.size());
  memcpy(scratch_, a.data(), a.size());
}
void SubstituteAndAppendArray(std::string* out, absl::string_view format,
                              const absl::string_view* args, size_t n) {
  for (size_t i = 0; i < format.size(); ++i) {
    if (format[i] != '$' || i + 1 == format.size()) {
      *out += format[i];
    } else if (format[++i] == '$') {
      *out += '$';
    } else if (size_t(format[i] - '0') < n) {
      *out += args[format[i] - '0'];
    }
  }
}
}  // namespace substitute_internal

ABSL_NAMESPACE_END
}  // namespace absl
