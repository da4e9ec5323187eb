#ifndef MANDARIN_COMMON_H_
#define MANDARIN_COMMON_H_
// Independent tables: standard Mandarin syllables, Bopomofo order, key layouts.
#include <map>
#include <set>
#include <sstream>
#include "Mandarin/Mandarin.h"
#include "mc.h"
#include "util.h"
using mc::Explorer;
using namespace Formosa::Mandarin;

static const std::vector<std::string> kC = {"ㄅ","ㄆ","ㄇ","ㄈ","ㄉ","ㄊ","ㄋ","ㄌ","ㄍ","ㄎ","ㄏ","ㄐ","ㄑ","ㄒ","ㄓ","ㄔ","ㄕ","ㄖ","ㄗ","ㄘ","ㄙ"};
static const std::vector<std::string> kM = {"ㄧ","ㄨ","ㄩ"};
static const std::vector<std::string> kV = {"ㄚ","ㄛ","ㄜ","ㄝ","ㄞ","ㄟ","ㄠ","ㄡ","ㄢ","ㄣ","ㄤ","ㄥ","ㄦ"};
static const std::vector<std::string> kT = {"ˊ","ˇ","ˋ","˙"};  // tones 2..5
static const std::vector<std::string>* const kKinds[4] = {&kC, &kM, &kV, &kT};

struct Syl {  // component numbers, 0 = none, else 1-based index into kKinds
  int c[4] = {0, 0, 0, 0};
  std::string text() const {
    std::string r;
    for (int k = 0; k < 4; ++k)
      if (c[k]) r += (*kKinds[k])[c[k] - 1];
    return r;
  }
  bool operator==(const Syl& o) const { return !memcmp(c, o.c, sizeof c); }
};
inline bool component(const std::string& s, int& kind, int& ix) {
  for (kind = 0; kind < 4; ++kind)
    for (ix = 1; ix <= (int)kKinds[kind]->size(); ++ix)
      if ((*kKinds[kind])[ix - 1] == s) return true;
  return false;
}
inline std::vector<std::string> u8chars(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    size_t n = (s[i] & 0x80) == 0 ? 1 : (s[i] & 0xe0) == 0xc0 ? 2 : (s[i] & 0xf0) == 0xe0 ? 3 : 4;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
inline Syl parse(const std::string& s) {
  Syl r;
  for (auto& ch : u8chars(s)) {
    int k, i;
    if (component(ch, k, i)) r.c[k] = i;
  }
  return r;
}

// Toneless syllables of standard Mandarin (without the interjections written
// with a lone ㄝ ㄟ ㄥ, which share a key with another lone component in the
// 26-key layouts and have no agreed Pinyin).
inline std::vector<Syl> standardSyllables() {
  static const char* T[] = {
      "|ㄚ ㄛ ㄜ ㄞ ㄠ ㄡ ㄢ ㄣ ㄤ ㄦ ㄧ ㄧㄚ ㄧㄛ ㄧㄝ ㄧㄞ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄣ ㄧㄤ ㄧㄥ ㄨ ㄨㄚ ㄨㄛ ㄨㄞ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄤ ㄨㄥ ㄩ ㄩㄝ ㄩㄢ ㄩㄣ ㄩㄥ",
      "ㄅ|ㄚ ㄛ ㄞ ㄟ ㄠ ㄢ ㄣ ㄤ ㄥ ㄧ ㄧㄝ ㄧㄠ ㄧㄢ ㄧㄣ ㄧㄥ ㄨ",
      "ㄆ|ㄚ ㄛ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄧ ㄧㄝ ㄧㄠ ㄧㄢ ㄧㄣ ㄧㄥ ㄨ",
      "ㄇ|ㄚ ㄛ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄧ ㄧㄝ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄣ ㄧㄥ ㄨ",
      "ㄈ|ㄚ ㄛ ㄟ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ",
      "ㄉ|ㄚ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄧ ㄧㄚ ㄧㄝ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄥ ㄨ ㄨㄛ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄥ",
      "ㄊ|ㄚ ㄜ ㄞ ㄠ ㄡ ㄢ ㄤ ㄥ ㄧ ㄧㄝ ㄧㄠ ㄧㄢ ㄧㄥ ㄨ ㄨㄛ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄥ",
      "ㄋ|ㄚ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄧ ㄧㄝ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄣ ㄧㄤ ㄧㄥ ㄨ ㄨㄛ ㄨㄢ ㄨㄣ ㄨㄥ ㄩ ㄩㄝ",
      "ㄌ|ㄚ ㄛ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄤ ㄥ ㄧ ㄧㄚ ㄧㄝ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄣ ㄧㄤ ㄧㄥ ㄨ ㄨㄛ ㄨㄢ ㄨㄣ ㄨㄥ ㄩ ㄩㄝ ㄩㄢ",
      "ㄍ|ㄚ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄚ ㄨㄛ ㄨㄞ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄤ ㄨㄥ",
      "ㄎ|ㄚ ㄜ ㄞ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄚ ㄨㄛ ㄨㄞ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄤ ㄨㄥ",
      "ㄏ|ㄚ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄚ ㄨㄛ ㄨㄞ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄤ ㄨㄥ",
      "ㄐ|ㄧ ㄧㄚ ㄧㄝ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄣ ㄧㄤ ㄧㄥ ㄩ ㄩㄝ ㄩㄢ ㄩㄣ ㄩㄥ",
      "ㄑ|ㄧ ㄧㄚ ㄧㄝ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄣ ㄧㄤ ㄧㄥ ㄩ ㄩㄝ ㄩㄢ ㄩㄣ ㄩㄥ",
      "ㄒ|ㄧ ㄧㄚ ㄧㄝ ㄧㄠ ㄧㄡ ㄧㄢ ㄧㄣ ㄧㄤ ㄧㄥ ㄩ ㄩㄝ ㄩㄢ ㄩㄣ ㄩㄥ",
      "ㄓ|- ㄚ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄚ ㄨㄛ ㄨㄞ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄤ ㄨㄥ",
      "ㄔ|- ㄚ ㄜ ㄞ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄚ ㄨㄛ ㄨㄞ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄤ ㄨㄥ",
      "ㄕ|- ㄚ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄚ ㄨㄛ ㄨㄞ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄤ",
      "ㄖ|- ㄜ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄛ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄥ",
      "ㄗ|- ㄚ ㄜ ㄞ ㄟ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄛ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄥ",
      "ㄘ|- ㄚ ㄜ ㄞ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄛ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄥ",
      "ㄙ|- ㄚ ㄜ ㄞ ㄠ ㄡ ㄢ ㄣ ㄤ ㄥ ㄨ ㄨㄛ ㄨㄟ ㄨㄢ ㄨㄣ ㄨㄥ"};
  std::vector<Syl> r;
  for (std::string line : T) {
    size_t bar = line.find('|');
    std::istringstream in(line.substr(bar + 1));
    for (std::string f; in >> f;) r.push_back(parse(line.substr(0, bar) + (f == "-" ? "" : f)));
  }
  return r;
}

// Hanyu Pinyin of a toneless standard syllable, from the standard tables
// (ü as `uml`, written u after j q x y and before e after n l).
inline std::string pinyinOf(const Syl& s, const std::string& uml) {
  static const char* I[] = {"", "b", "p", "m", "f", "d", "t", "n", "l", "g", "k", "h", "j", "q", "x", "zh", "ch", "sh", "r", "z", "c", "s"};
  //                        -     a    o     e    eh   ai     ei    ao    ou    an     en    ang    eng   er
  static const char* F0[] = {"", "a", "o", "e", "eh", "ai", "ei", "ao", "ou", "an", "en", "ang", "eng", "er"};
  static const char* FI[] = {"i", "ia", "io", "", "ie", "iai", "", "iao", "iu", "ian", "in", "iang", "ing", ""};
  static const char* FU[] = {"u", "ua", "uo", "", "", "uai", "ui", "", "", "uan", "un", "uang", "ong", ""};
  static const char* FV[] = {"v", "", "", "", "ve", "", "", "", "", "van", "vn", "", "iong", ""};
  static const char* YI[] = {"yi", "ya", "yo", "", "ye", "yai", "", "yao", "you", "yan", "yin", "yang", "ying", ""};
  static const char* WU[] = {"wu", "wa", "wo", "", "", "wai", "wei", "", "", "wan", "wen", "wang", "weng", ""};
  static const char* YU[] = {"yu", "", "", "", "yue", "", "", "", "", "yuan", "yun", "", "yong", ""};
  int c = s.c[0], m = s.c[1], v = s.c[2];
  if (!c) return m == 0 ? F0[v] : m == 1 ? YI[v] : m == 2 ? WU[v] : YU[v];
  if (!m && !v) return std::string(I[c]) + "i";
  std::string f = m == 0 ? F0[v] : m == 1 ? FI[v] : m == 2 ? FU[v] : FV[v];
  if (m == 3 && f[0] == 'v') {
    bool jqx = c >= 12 && c <= 14;
    f = (jqx || v == 4 ? std::string("u") : uml) + f.substr(1);
  }
  return I[c] + f;
}

// key -> components, as documented for each layout.
struct Layout {
  const char* name;
  const BopomofoKeyboardLayout* real;
  std::map<char, std::vector<std::string>> keys;
  char keyOf(const std::string& comp) const {
    for (auto& kv : keys)
      for (auto& x : kv.second)
        if (x == comp) return kv.first;
    return 0;
  }
  std::string keysOf(const Syl& s) const {
    std::string r;
    for (int k = 0; k < 4; ++k)
      if (s.c[k]) r += keyOf((*kKinds[k])[s.c[k] - 1]);
    return r;
  }
};
inline const std::vector<Layout>& layouts() {
  static std::vector<Layout> L;
  if (!L.empty()) return L;
  auto row = [](Layout& l, const char* keys, const char* comps) {
    auto c = u8chars(comps);
    for (size_t i = 0; keys[i]; ++i) l.keys[keys[i]] = {c.at(i)};
  };
  const char* order = "ㄅㄆㄇㄈㄉㄊㄋㄌㄍㄎㄏㄐㄑㄒㄓㄔㄕㄖㄗㄘㄙㄧㄨㄩㄚㄛㄜㄝㄞㄟㄠㄡㄢㄣㄤㄥㄦˊˇˋ˙";
  L.push_back({"Standard", BopomofoKeyboardLayout::StandardLayout(), {}});
  row(L.back(), "1qaz2wsxedcrfv5tgbyhnujm8ik,9ol.0p;/-6347", order);
  L.push_back({"ETen", BopomofoKeyboardLayout::ETenLayout(), {}});
  row(L.back(), "bpmfdtnlvkhg7c,./j;'sexuaorwiqzy890-=2341", order);
  L.push_back({"IBM", BopomofoKeyboardLayout::IBMLayout(), {}});
  row(L.back(), "1234567890-qwertyuiopasdfghjkl;zxcvbnm,./", order);
  auto amb = [](Layout& l, const char* spec) {
    std::istringstream in(spec);
    for (std::string t; in >> t;) l.keys[t[0]] = u8chars(t.substr(1));
  };
  L.push_back({"Hsu", BopomofoKeyboardLayout::HsuLayout(), {}});
  amb(L.back(), "bㄅ pㄆ mㄇㄢ fㄈˇ dㄉˊ tㄊ nㄋㄣ lㄌㄥㄦ gㄍㄜ kㄎㄤ hㄏㄛ jㄐㄓˋ vㄑㄔ cㄒㄕ rㄖ zㄗ aㄘㄟ sㄙ˙ eㄧㄝ xㄨ uㄩ yㄚ iㄞ wㄠ oㄡ");
  L.push_back({"ETen26", BopomofoKeyboardLayout::ETen26Layout(), {}});
  amb(L.back(), "bㄅ pㄆㄡ mㄇㄢ fㄈˊ dㄉ˙ tㄊㄤ nㄋㄣ lㄌㄥ vㄍㄑ kㄎˋ hㄏㄦ gㄓㄐ cㄕㄒ yㄔ jㄖˇ qㄗㄟ wㄘㄝ sㄙ eㄧ xㄨ uㄩ aㄚ oㄛ rㄜ iㄞ zㄠ");
  L.push_back({"HanyuPinyin", BopomofoKeyboardLayout::HanyuPinyinLayout(), {}});
  return L;
}
#endif
