// The distribution's absl was built with its own string_view; these are the
// functions taking one, for a build where absl::string_view is
// std::string_view (as in the versions secretflow/psi is built with).
#include <cctype>
#include <limits>
#include <string>
#include <vector>

#include "absl/strings/ascii.h"
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"

namespace absl {
ABSL_NAMESPACE_BEGIN

ByString::ByString(absl::string_view sp) : delimiter_(sp) {}
absl::string_view ByString::Find(absl::string_view text, size_t pos) const {
  if (delimiter_.empty() && text.length() > 0) {
    return absl::string_view(text.data() + pos + 1, 0);
  }
  size_t p = text.find(delimiter_, pos);
  if (p == absl::string_view::npos) return absl::string_view(text.data() + text.size(), 0);
  return text.substr(p, delimiter_.size());
}
absl::string_view ByChar::Find(absl::string_view text, size_t pos) const {
  size_t p = text.find(c_, pos);
  if (p == absl::string_view::npos) return absl::string_view(text.data() + text.size(), 0);
  return text.substr(p, 1);
}
ByAnyChar::ByAnyChar(absl::string_view sp) : delimiters_(sp) {}
absl::string_view ByAnyChar::Find(absl::string_view text, size_t pos) const {
  size_t p = text.find_first_of(delimiters_, pos);
  if (p == absl::string_view::npos) return absl::string_view(text.data() + text.size(), 0);
  return text.substr(p, 1);
}

std::string BytesToHexString(absl::string_view from) {
  static const char* k = "0123456789abcdef";
  std::string r;
  r.reserve(from.size() * 2);
  for (unsigned char c : from) {
    r.push_back(k[c >> 4]);
    r.push_back(k[c & 15]);
  }
  return r;
}
std::string HexStringToBytes(absl::string_view from) {
  auto v = [](char c) -> int {
    if (c >= '0' && c <= '9') return c - '0';
    c = static_cast<char>(std::tolower(c));
    return c >= 'a' && c <= 'f' ? c - 'a' + 10 : 0;
  };
  std::string r;
  for (size_t i = 0; i + 1 < from.size(); i += 2) {
    r.push_back(static_cast<char>(v(from[i]) * 16 + v(from[i + 1])));
  }
  return r;
}
std::string StrReplaceAll(absl::string_view s, std::initializer_list<std::pair<absl::string_view, absl::string_view>> reps) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& p : reps)
      if (!p.first.empty() && s.substr(i, p.first.size()) == p.first && (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { r.append(best->second); i += best->first.size(); }
    else r.push_back(s[i++]);
  }
  return r;
}
static std::string B64(absl::string_view s, const char* tab, bool pad) {
  std::string r;
  size_t i = 0;
  for (; i + 2 < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2];
    for (int k = 18; k >= 0; k -= 6) r.push_back(tab[(v >> k) & 63]);
  }
  if (i + 1 == s.size()) {
    unsigned v = (unsigned char)s[i] << 16;
    r.push_back(tab[v >> 18]);
    r.push_back(tab[(v >> 12) & 63]);
    if (pad) r += "==";
  } else if (i + 2 == s.size()) {
    unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8;
    r.push_back(tab[v >> 18]);
    r.push_back(tab[(v >> 12) & 63]);
    r.push_back(tab[(v >> 6) & 63]);
    if (pad) r += "=";
  }
  return r;
}
static const char kStd[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char kWeb[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
std::string Base64Escape(absl::string_view src) { return B64(src, kStd, true); }
void Base64Escape(absl::string_view src, std::string* dest) { *dest = B64(src, kStd, true); }
std::string WebSafeBase64Escape(absl::string_view src) { return B64(src, kWeb, false); }
void WebSafeBase64Escape(absl::string_view src, std::string* dest) { *dest = B64(src, kWeb, false); }
static bool U64B(absl::string_view s, const char* tab, std::string* out) {
  std::string r;
  unsigned acc = 0;
  int bits = 0;
  size_t n = s.size();
  size_t chars = 0, pads = 0;
  for (size_t i = 0; i < n; i++) {
    char c = s[i];
    if (c == ' ' || c == '\n' || c == '\r' || c == '\t') continue;
    if (c == '=' || c == '.') { pads++; continue; }
    if (pads) return false;
    const char* p = nullptr;
    for (int k = 0; k < 64; k++) if (tab[k] == c) p = tab + k;
    if (!p) return false;
    chars++;
    acc = acc << 6 | static_cast<unsigned>(p - tab);
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      r.push_back(static_cast<char>(acc >> bits));
      acc &= (1u << bits) - 1;
    }
  }
  if (chars % 4 == 1 || acc != 0 || (pads && (chars + pads) % 4)) return false;
  *out = r;
  return true;
}
bool Base64Unescape(absl::string_view src, std::string* dest) { return U64B(src, kStd, dest); }
bool WebSafeBase64Unescape(absl::string_view src, std::string* dest) { return U64B(src, kWeb, dest); }

namespace numbers_internal {
template <class T>
static bool Parse(absl::string_view t, T* v, int base) {
  *v = 0;
  size_t a = 0, b = t.size();
  while (a < b && std::isspace((unsigned char)t[a])) a++;
  while (b > a && std::isspace((unsigned char)t[b - 1])) b--;
  if (a == b) return false;
  bool neg = false;
  if (t[a] == '+' || t[a] == '-') neg = t[a++] == '-';
  if (a == b || (base != 10 && base != 16)) return false;
  if (base == 16 && b - a > 2 && t[a] == '0' && (t[a + 1] | 32) == 'x') a += 2;
  if (neg && !std::numeric_limits<T>::is_signed) return false;
  __int128 acc = 0;
  __int128 lim = (__int128)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  for (; a < b; a++) {
    int d;
    char c = t[a];
    if (c >= '0' && c <= '9') d = c - '0';
    else if (base == 16 && std::isxdigit((unsigned char)c)) d = (c | 32) - 'a' + 10;
    else { *v = static_cast<T>(neg ? -acc : acc); return false; }
    acc = acc * base + d;
    if (acc > lim) {
      *v = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
      return false;
    }
  }
  *v = static_cast<T>(neg ? -acc : acc);
  return true;
}
bool safe_strto32_base(absl::string_view t, int32_t* v, int base) { return Parse(t, v, base); }
bool safe_strto64_base(absl::string_view t, int64_t* v, int base) { return Parse(t, v, base); }
bool safe_strtou32_base(absl::string_view t, uint32_t* v, int base) { return Parse(t, v, base); }
bool safe_strtou64_base(absl::string_view t, uint64_t* v, int base) { return Parse(t, v, base); }
}  // namespace numbers_internal
bool SimpleAtod(absl::string_view s, double* out) {
  std::string t(StripAsciiWhitespace(s));
  if (t.empty()) return false;
  char* e = nullptr;
  *out = std::strtod(t.c_str(), &e);
  return *e == 0;
}
bool SimpleAtof(absl::string_view s, float* out) {
  double d;
  bool ok = SimpleAtod(s, &d);
  *out = static_cast<float>(d);
  return ok;
}
bool SimpleAtob(absl::string_view s, bool* out) {
  std::string t(s);
  for (auto& c : t) c = static_cast<char>(std::tolower(c));
  if (t == "true" || t == "t" || t == "yes" || t == "y" || t == "1") return *out = true, true;
  if (t == "false" || t == "f" || t == "no" || t == "n" || t == "0") return *out = false, true;
  return false;
}

std::string StrCat(const AlphaNum& a, const AlphaNum& b) {
  std::string r(a.Piece());
  return r.append(b.Piece());
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) {
  std::string r(a.Piece());
  return r.append(b.Piece()).append(c.Piece());
}
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) {
  std::string r(a.Piece());
  return r.append(b.Piece()).append(c.Piece()).append(d.Piece());
}
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> ps) {
  std::string r;
  for (auto p : ps) r.append(p);
  return r;
}
void AppendPieces(std::string* d, std::initializer_list<absl::string_view> ps) {
  for (auto p : ps) d->append(p);
}
}  // namespace strings_internal
void StrAppend(std::string* d, const AlphaNum& a) { d->append(a.Piece()); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b) { d->append(a.Piece()).append(b.Piece()); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) {
  d->append(a.Piece()).append(b.Piece()).append(c.Piece());
}
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& e) {
  d->append(a.Piece()).append(b.Piece()).append(c.Piece()).append(e.Piece());
}
bool EqualsIgnoreCase(absl::string_view a, absl::string_view b) noexcept {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (ascii_tolower((unsigned char)a[i]) != ascii_tolower((unsigned char)b[i])) return false;
  return true;
}
bool StartsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p);
}
bool EndsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p);
}
ABSL_NAMESPACE_END
}  // namespace absl
