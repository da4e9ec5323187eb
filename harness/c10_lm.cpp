// C10: combination of base vocabulary, user phrases, exclusions, replacement, macros and converter.
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <list>
#include <map>
#include <set>

#include "McBopomofoLM.h"
#include "mc.h"
#include "util.h"

using McBopomofo::McBopomofoLM;
using McBopomofo::ParselessPhraseDB;

struct V {
  std::string value;
  double score;
};

static void body(mc::Explorer& e) {
  static const std::vector<V> baseMenu = {{"x", -2}, {"y", -3}, {"MACRO@OK", -8}, {"MACRO@BAD", -8}, {"MACRO@BAD", -5}, {"MACRO@", -8}};
  static const std::vector<std::string> userMenu = {"x", "z", "MACRO@BAD"};
  static const char* keysM[] = {"ㄅ", "ㄅ-ㄆ"};
  std::string key = keysM[e.pick(2)];
  // Base: every ordered selection of up to 2 (3) entries; user: up to 2 entries, ordered.
  std::vector<V> base;
  std::vector<std::string> user;
  size_t nb = e.pick(e.thorough ? 4 : 3);
  for (size_t i = 0; i < nb; ++i) base.push_back(baseMenu[e.pick(baseMenu.size())]);
  size_t nu = e.pick(3);
  for (size_t i = 0; i < nu; ++i) user.push_back(userMenu[e.pick(userMenu.size())]);
  size_t exBits = e.pick(16), rpBits = e.pick(8);
  // The files are then loaded anew with other contents, into the same model.
  static const std::vector<std::string> exMenu = {"x", "y", "z", "w"};
  static const std::vector<std::pair<std::string, std::string>> rpMenu = {{"x", "y"}, {"y", "w"}, {"z", "MACRO@OK"}};

  McBopomofoLM lm;
  std::list<Exact> kept;
  for (int round = 0; round < 2; ++round) {
  if (round) {
    exBits = (exBits << 1 | exBits >> 3) & 15, rpBits ^= 7;
    std::reverse(user.begin(), user.end());
    if (user.empty()) user.push_back("z"); else user.pop_back();
  }
  std::string db(McBopomofo::SORTED_PRAGMA_HEADER);
  db += "_other o -1\n";
  for (auto& v : base) db += key + " " + v.value + " " + str(v.score) + "\n";
  db += "ㄓ other -1\n";
  std::string up, ex, rp;
  for (auto& v : user) up += v + " " + key + "\n";
  up += "elsewhere ㄓ\n";
  for (size_t i = 0; i < 4; ++i)
    if (exBits >> i & 1) ex += exMenu[i] + " " + key + "\n";
  ex += "x ㄓ-ㄓ\n";
  for (size_t i = 0; i < 3; ++i)
    if (rpBits >> i & 1) rp += rpMenu[i].first + " " + rpMenu[i].second + "\n";
  Exact &bdb = kept.emplace_back(db), &bup = kept.emplace_back(up), &bex = kept.emplace_back(ex), &brp = kept.emplace_back(rp);
  if (!round) {
    if (lm.isDataModelLoaded()) e.fail("reports loaded before loading", "");
    lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(bdb.data(), bdb.n, true));
  }
  if (!round) {
    lm.loadUserPhrases(bup.data(), bup.n);
    lm.loadExcludedPhrases(bex.data(), bex.n);
    lm.loadPhraseReplacementMap(brp.data(), brp.n);
  } else {  // from files, the map of replacements missing when it is empty
    std::string f[3] = {e.scratch + "/user", e.scratch + "/excluded", e.scratch + "/replaced"};
    const std::string* text[3] = {&up, &ex, &rp};
    for (int i = 0; i < 3; ++i) {
      std::filesystem::remove(f[i]);
      if (!text[i]->empty()) std::ofstream(f[i]) << *text[i];
    }
    lm.loadUserPhrases(f[0].c_str(), f[1].c_str());
    lm.loadPhraseReplacementMap(f[2].c_str());
  }
  auto conv = [](const std::string& s) { return s == "y" || s == "w" ? std::string("Y") : s; };
  auto macro = [](const std::string& s) { return s == "MACRO@OK" ? std::string("now") : s; };
  e.note(round ? "reloaded: " : "", "key ", key, " base ", nb, " user ", nu, " excl ", exBits, " repl ", rpBits);
  for (int sw = 0; sw < 16; ++sw) {
    bool rpOn = sw & 1, convSet = sw & 2, convOn = sw & 4, macOn = sw & 8;
    lm.setPhraseReplacementEnabled(rpOn);
    lm.setExternalConverterEnabled(convOn);
    lm.setExternalConverter(convSet ? std::function<std::string(const std::string&)>(conv) : nullptr);
    lm.setMacroConverter(macOn ? std::function<std::string(const std::string&)>(macro) : nullptr);
    // Reference.
    std::set<std::string> excl, used;
    for (size_t i = 0; i < 4; ++i)
      if (exBits >> i & 1) excl.insert(exMenu[i]);
    auto transform = [&](const std::vector<V>& in) {
      std::vector<V> out;
      for (const auto& v : in) {
        if (excl.count(v.value)) continue;
        std::string s = v.value;
        if (rpOn)
          for (size_t i = 0; i < 3; ++i)
            if ((rpBits >> i & 1) && rpMenu[i].first == v.value) s = rpMenu[i].second;
        if (macOn) s = macro(s);
        if (v.score == -8 && s.rfind("MACRO@", 0) == 0 && s.size() > 6) continue;
        if (convOn && convSet) s = conv(s);
        if (used.insert(s).second) out.push_back({s, v.score});
      }
      return out;
    };
    std::vector<V> uin;
    for (auto& v : user) uin.push_back({v, 0});
    auto u = transform(uin);
    auto b = transform(base);
    bool single = key.find('-') == std::string::npos;
    double top = -1e9;
    for (auto& v : b) top = std::max(top, v.score);
    auto got = lm.getUnigrams(key);
    bool has = lm.hasUnigrams(key);
    e.evaluations(2);
    std::string ctx = "base " + mc::quote(db) + " user " + mc::quote(up) + " excluded " + mc::quote(ex) + " replaced " + mc::quote(rp) + " switches " + std::to_string(sw) + (round ? " (loaded anew)" : "");
    std::string gs;
    for (auto& x : got) gs += x.value() + ":" + str(x.score()) + " ";
    if (has != !got.empty()) e.fail("usable and has-candidates disagree", ctx + " got " + gs);
    if (got.size() != u.size() + b.size()) e.fail("candidates differ", ctx + " got " + gs);
    for (size_t i = 0; i < got.size(); ++i) {
      const V& w = i < u.size() ? u[i] : b[i - u.size()];
      if (got[i].value() != w.value) e.fail("candidates differ", ctx + " got " + gs);
      if (i >= u.size() || !single || b.empty()) {
        if (got[i].score() != w.score) e.fail("a score differs", ctx + " got " + gs);
      } else if (!(got[i].score() > top && got[i].score() < top + 1e-3)) {
        e.fail("a user phrase is not scored just above the base entries", ctx + " got " + gs);
      }
    }
    e.outcome(gs);
    e.state(gs + std::to_string(sw));
  }
  }
  // Space and unknown readings.
  auto sp = lm.getUnigrams(" ");
  if (sp.size() != 1 || sp[0].value() != " " || !lm.hasUnigrams(" ")) e.fail("the space reading is wrong", "");
  if (lm.hasUnigrams("ㄅㄅ") || !lm.getUnigrams("ㄅㄅ").empty()) e.fail("an unknown reading has candidates", "");
  // Reverse lookup: the best-scored reading of a base value.
  if (lm.getReading("other") != "ㄓ" || !lm.getReading("nope").empty()) e.fail("reverse lookup is wrong", "");
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
