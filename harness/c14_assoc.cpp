// C14: associated-phrase lookup vs filtering the whole table by parsed characters and readings.
#include <algorithm>
#include <set>

#include "AssociatedPhrasesV2.h"
#include "mc.h"
#include "util.h"

using McBopomofo::AssociatedPhrasesV2;
using McBopomofo::ParselessPhraseDB;

struct Entry {
  std::vector<std::string> chars, reads;
  double score;
  std::string value() const {
    std::string s;
    for (auto& c : chars) s += c;
    return s;
  }
  bool plainest = false;  // the score as "-20", not "-20.0000"
  std::string line() const {
    std::string s;
    for (size_t i = 0; i < chars.size(); ++i) s += (i ? "-" : "") + chars[i] + "-" + reads[i];
    char b[32];
    snprintf(b, sizeof b, plainest ? " %.11g" : " %.8f", score);
    return s + b;
  }
};

static void body(mc::Explorer& e) {
  if (e.pick(2) == 0) {
    // Reading strings: split/join are inverse; split divides at every separator.
    static const std::vector<std::string> parts = {"ㄅㄚ", "ㄅ", "_punctuation_list", "a", ""};
    std::vector<std::string> r;
    size_t n = e.pick(6);
    bool hasEmpty = false;
    for (size_t i = 0; i < n; ++i) {
      size_t k = e.pick(parts.size());
      r.push_back(parts[k]);
      hasEmpty = hasEmpty || parts[k].empty();
    }
    std::string joined;
    for (size_t i = 0; i < n; ++i) joined += (i ? "-" : "") + r[i];
    e.transition();
    if (AssociatedPhrasesV2::CombineReadings(r) != joined) e.fail("joining readings is wrong", joined);
    if (AssociatedPhrasesV2::Phrase("x", r).combinedReading() != joined) e.fail("joining readings is wrong", joined);
    auto back = AssociatedPhrasesV2::SplitReadings(joined);
    if (!(n == 1 && r[0].empty()) && back != r) e.fail("splitting does not give back the readings", mc::quote(joined));
    if (joined.empty() && !back.empty()) e.fail("splitting nothing gives readings", "");
    e.outcome(joined);
    return;
  }
  static const std::vector<std::string> chars = {"一", "丁", "a", "𠀀"};
  static const std::vector<std::string> reads = {"ㄧ", "ㄧˊ", "ㄅ"};
  // A menu of entries sharing prefixes in characters, in readings, in bytes.
  static const std::vector<Entry> menu = {
      {{"一", "丁"}, {"ㄧ", "ㄅ"}, -25.00000001}, {{"一", "丁"}, {"ㄧˊ", "ㄅ"}, -25}, {{"一", "丁", "一"}, {"ㄧ", "ㄅ", "ㄧ"}, -20.00000001},
      {{"一", "一"}, {"ㄧ", "ㄧ"}, -20}, {{"一", "𠀀"}, {"ㄧ", "ㄧˊ"}, -105.5}, {{"丁", "一"}, {"ㄅ", "ㄧ"}, -11},
      {{"a", "一"}, {"ㄅ", "ㄧ"}, -11}, {{"𠀀", "丁"}, {"ㄧ", "ㄅ"}, -90}, {{"一", "丁", "a", "𠀀"}, {"ㄧˊ", "ㄅ", "ㄅ", "ㄧ"}, -20}};
  size_t bits = e.pick(1u << menu.size());
  std::vector<Entry> rows;
  for (size_t i = 0; i < menu.size(); ++i)
    if (bits >> i & 1) rows.push_back(menu[i]);
  // A duplicate row with another score, sometimes.
  if (!rows.empty() && e.pick(2)) {
    Entry d = rows[0];
    d.score = -0.5;
    rows.push_back(d);
  }
  bool plainest = e.pick(2);
  for (auto& r : rows) r.plainest = plainest;
  std::sort(rows.begin(), rows.end(), [](const Entry& a, const Entry& b) { return a.line() < b.line(); });
  std::string text(McBopomofo::SORTED_PRAGMA_HEADER);
  for (auto& r : rows) text += r.line() + "\n";
  Exact buf(text);
  AssociatedPhrasesV2 ap;
  if (ap.isLoaded() || !ap.findPhrases("一", {}).empty()) e.fail("an unloaded table answers", "");
  ap.open(std::make_unique<ParselessPhraseDB>(buf.data(), buf.n, true));
  if (!ap.isLoaded()) e.fail("table not loaded", "");
  e.note(mc::quote(text));
  e.state(text);
  auto ask = [&](const std::vector<std::string>& pc, const std::vector<std::string>& pr) {
    std::string value;
    for (auto& c : pc) value += c;
    auto got = ap.findPhrases(value, pr);
    e.evaluations(1);
    std::vector<Entry> want;
    if (!pc.empty() && (pr.size() == pc.size() || (pr.empty() && pc.size() == 1)))
      for (auto& r : rows) {
        if (r.chars.size() <= pc.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < pc.size(); ++i) ok = ok && r.chars[i] == pc[i] && (pr.empty() || r.reads[i] == pr[i]);
        if (ok) want.push_back(r);
      }
    std::stable_sort(want.begin(), want.end(), [](const Entry& a, const Entry& b) { return a.score > b.score; });
    std::vector<Entry> uniq;
    std::set<std::string> seen;
    for (auto& w : want)
      if (seen.insert(w.value()).second) uniq.push_back(w);
    std::string ctx = "prefix " + value + " in " + mc::quote(text);
    if (got.size() != uniq.size()) e.fail("continuations differ from the table", ctx + " got " + std::to_string(got.size()) + " want " + std::to_string(uniq.size()));
    for (size_t i = 0; i < got.size(); ++i)
      if (got[i].value != uniq[i].value() || got[i].readings != uniq[i].reads) e.fail("continuations differ from the table", ctx + " got " + got[i].value + " want " + uniq[i].value());
    e.outcome(std::to_string(got.size()) + (got.empty() ? "" : got[0].value));
  };
  // Every prefix of 0..2 characters with every reading list of 0..3 readings.
  std::vector<std::vector<std::string>> cs{{}}, rs{{}};
  for (auto& a : chars) {
    cs.push_back({a});
    for (auto& b : chars) cs.push_back({a, b});
  }
  for (auto& a : reads) {
    rs.push_back({a});
    for (auto& b : reads) {
      rs.push_back({a, b});
      rs.push_back({a, b, "ㄅ"});
    }
  }
  for (auto& c : cs)
    for (auto& r : rs) ask(c, r);
  ask({"一", "丁", "a"}, {"ㄧˊ", "ㄅ", "ㄅ"});
  ask({"一", "丁", "一"}, {"ㄧ", "ㄅ", "ㄧ"});
  ask({"\xe4\xb8"}, {"ㄧ"});
  ap.close();
  if (ap.isLoaded() || !ap.findPhrases("一", {}).empty()) e.fail("a closed table answers", "");
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
