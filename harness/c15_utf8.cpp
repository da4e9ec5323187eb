// C15: UTF-8 helpers vs a table-driven reference decoder (Unicode Table 3-7), all short byte strings.
#include "UTF8Helper.h"
#include "mc.h"
#include "util.h"

// Length of the well-formed character at p (RFC 3629), 0 if ill-formed.
static size_t wf(const std::string& s, size_t p) {
  auto b = [&](size_t i) -> int { return p + i < s.size() ? static_cast<unsigned char>(s[p + i]) : -1; };
  auto in = [](int x, int lo, int hi) { return x >= lo && x <= hi; };
  int c = b(0);
  if (in(c, 0x00, 0x7f)) return 1;
  if (in(c, 0xc2, 0xdf)) return in(b(1), 0x80, 0xbf) ? 2 : 0;
  if (in(c, 0xe0, 0xef)) {
    int lo = c == 0xe0 ? 0xa0 : 0x80, hi = c == 0xed ? 0x9f : 0xbf;
    return in(b(1), lo, hi) && in(b(2), 0x80, 0xbf) ? 3 : 0;
  }
  if (in(c, 0xf0, 0xf4)) {
    int lo = c == 0xf0 ? 0x90 : 0x80, hi = c == 0xf4 ? 0x8f : 0xbf;
    return in(b(1), lo, hi) && in(b(2), 0x80, 0xbf) && in(b(3), 0x80, 0xbf) ? 4 : 0;
  }
  return 0;
}

static void checkStr(mc::Explorer& e, const std::string& raw) {
  // An exactly sized std::string on the heap, so that ASan sees over-reads of the buffer.
  std::string s = raw;
  if (s.size() < 16) s.reserve(16);
  s.shrink_to_fit();
  std::vector<std::string> chars;
  size_t p = 0;
  while (p < s.size()) {
    size_t n = wf(s, p);
    if (!n) break;
    chars.push_back(s.substr(p, n));
    p += n;
  }
  if (McBopomofo::CodePointCount(s) != chars.size()) e.fail("character count is wrong", mc::quote(s));
  if (McBopomofo::Split(s) != chars) e.fail("splitting is wrong", mc::quote(s));
  std::string acc;
  for (size_t i = 0; i <= chars.size() + 1; ++i) {
    if (McBopomofo::SubstringToCodePoints(s, i) != acc) e.fail("clamping is wrong", mc::quote(s) + " to " + std::to_string(i));
    if (i < chars.size()) {
      if (McBopomofo::GetCodePoint(s, i) != chars[i]) e.fail("the character at an index is wrong", mc::quote(s) + " at " + std::to_string(i));
      acc += chars[i];
    }
  }
  e.outcome(std::to_string(chars.size()) + "/" + std::to_string(p) + "/" + std::to_string(s.size()));
}

static void body(mc::Explorer& e) {
  size_t fam = e.pick(4);
  uint64_t n = 0;
  if (fam == 0) {
    // Boundary bytes of every class, all strings up to 5 (6) bytes; the first byte is picked.
    static const unsigned char al[] = {0x00, 0x61, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xfc, 0xff};
    constexpr size_t A = sizeof al;
    std::string s(1, static_cast<char>(al[e.pick(A)]));
    if (s[0] == 0) checkStr(e, "");
    s += static_cast<char>(al[e.pick(A)]);
    checkStr(e, s.substr(0, 1));
    size_t rest = e.thorough ? 4 : 3;
    for (size_t len = 0; len <= rest; ++len) {
      std::vector<size_t> d(len, 0);
      s.resize(2 + len);
      while (true) {
        for (size_t i = 0; i < len; ++i) s[2 + i] = static_cast<char>(al[d[i]]);
        checkStr(e, s);
        ++n;
        size_t i = 0;
        while (i < len && ++d[i] == A) d[i++] = 0;
        if (i == len) break;
      }
      mc::alive();
    }
    e.state(s.substr(0, 2));
    e.note("strings starting ", mc::quote(s.substr(0, 2)), ": ", n);
  } else if (fam > 1) {
    // Longer strings: every sequence of up to 8 (9) characters of each length and a bad byte, and every
    // sequence of up to 17 (19) of one and three bytes.
    static const char* kUnits[] = {"a", "字", "é", "𠀋", "\x80"};
    size_t A = fam == 2 ? 5 : 2, most = (fam == 2 ? 8 : 17) + (e.thorough ? fam - 1 : 0);
    size_t first = e.pick(A), second = e.pick(A);
    for (size_t len = 2; len <= most; ++len) {
      std::vector<size_t> d(len, 0);
      d[0] = first, d[1] = second;
      while (true) {
        std::string s;
        for (size_t x : d) s += kUnits[x];
        checkStr(e, s);
        ++n;
        size_t i = 2;
        while (i < len && ++d[i] == A) d[i++] = 0;
        if (i == len) break;
      }
      mc::alive();
    }
    e.state("long" + std::to_string(fam) + std::to_string(first) + std::to_string(second));
    e.note("long strings: ", n);
  } else {
    // Every code point, encoded, between two others; and every encoding cut short or with a bad byte.
    size_t block = e.pick(0x11);
    for (uint32_t cp = static_cast<uint32_t>(block) << 16, end = cp + 0x10000; cp < end; cp += (e.thorough || block < 1 ? 1 : 37)) {
      std::string c;
      if (cp < 0x80) c = std::string(1, static_cast<char>(cp));
      else if (cp < 0x800) c = {static_cast<char>(0xc0 | cp >> 6), static_cast<char>(0x80 | (cp & 63))};
      else if (cp < 0x10000) c = {static_cast<char>(0xe0 | cp >> 12), static_cast<char>(0x80 | (cp >> 6 & 63)), static_cast<char>(0x80 | (cp & 63))};
      else c = {static_cast<char>(0xf0 | cp >> 18), static_cast<char>(0x80 | (cp >> 12 & 63)), static_cast<char>(0x80 | (cp >> 6 & 63)), static_cast<char>(0x80 | (cp & 63))};
      checkStr(e, "字" + c + "z");
      ++n;
      if (c.size() > 1) {
        checkStr(e, "a" + c.substr(0, c.size() - 1));
        ++n;
      }
      if ((cp & 0xfff) == 0) mc::alive();
    }
    e.state(std::string("block") + std::to_string(block));
    e.note("code points of plane ", block, ": ", n);
  }
  e.evaluations(n);
  e.validated(n);
  e.count("strings", n);
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 2); }
