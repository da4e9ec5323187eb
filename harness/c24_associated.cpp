// C24: associated phrases in smart mode: offers, picks and cancellation.
#include "engine_vocab.h"

static Vocab assocVocab() {
  Vocab v;
  std::string A = kSyl[0], B = kSyl[1], C = kSyl[2], D = kSyl[3], X = "ㄊㄚ", U = "ㄙㄚ";
  double s = -8.5;
  auto add = [&](const std::string& r, std::vector<const char*> vals) {
    for (auto x : vals) v.add(r, x, s -= 0.0371);
  };
  // Every character of every word is listed for its syllable.
  add(A, {"八", "巴", "甲"});
  add(B, {"爬", "怕", "乙"});
  add(C, {"媽", "丙"});
  add(D, {"法", "丁", "𠀋", "髮", "發", "乏", "伐", "閥", "罰", "筏", "琺", "砝"});  // two pages
  add(X, {"他"});
  s -= 5;
  add(A + "-" + B, {"巴怕", "八爬"});
  add(B + "-" + C, {"爬媽"});
  add(A + "-" + A, {"八八"});
  add(C + "-" + A, {"丙甲"});
  s -= 6;
  add(A + "-" + B + "-" + C, {"甲乙丙"});
  add(A + "-" + X + "-" + C, {"八他媽"});
  add(B + "-" + D, {"趴"});  // fewer characters than syllables
  v.add("_punctuation_<", "，", -8.11);
  auto as = [&](std::vector<std::string> c, std::vector<std::string> r, double sc) { v.assoc.push_back({c, r, sc}); };
  as({"八", "法"}, {A, D}, -1);
  as({"八", "他", "媽"}, {A, X, C}, -2);
  as({"八", "薩"}, {A, U}, -3);
  as({"八", "媽", "薩", "法"}, {A, C, U, D}, -4);
  as({"八", "爬"}, {A, B}, -5);
  as({"甲", "乙", "他"}, {A, B, X}, -1);
  as({"巴", "怕", "𠀋"}, {A, B, D}, -1);
  as({"怕", "法"}, {B, D}, -1);
  as({"乙", "丙", "丁"}, {B, C, D}, -1);  // 乙丙 is no word of its own
  as({"丙", "丁"}, {C, D}, -1);
  as({"八", "八", "丁"}, {A, A, D}, -2.5);
  as({"法", "八", "爬", "媽", "他", "法", "八"}, {D, A, B, C, X, D, A}, -1);
  as({"丙", "甲", "乙"}, {C, A, B}, -0.5);
  as({"琺", "八"}, {D, A}, -1);
  as({"琺", "爬", "媽"}, {D, B, C}, -2);
  as({"髮", "丙"}, {D, C}, -1);
  // Two pages of offers.
  static const char* more[][2] = {{"八", "ㄅㄚ"}, {"巴", "ㄅㄚ"}, {"甲", "ㄅㄚ"}, {"爬", "ㄆㄚˇ"}, {"怕", "ㄆㄚˇ"}, {"乙", "ㄆㄚˇ"},
                                  {"媽", "ㄇㄚ"}, {"丙", "ㄇㄚ"}, {"法", "ㄈㄚˋ"}, {"丁", "ㄈㄚˋ"}, {"他", "ㄊㄚ"}};
  double sc = -1.25;
  for (auto& x : more) as({"媽", x[0]}, {C, x[1]}, sc -= 0.25);
  return v;
}

static void body(Explorer& e) {
  static const Vocab v = assocVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  size_t bits = e.pick(e.thorough ? 8 : 4);
  Opt o;
  o.assoc = bits & 1;
  o.after = bits & 2;
  o.move = bits & 4;
  o.ctrlEnter = 1;
  static std::vector<std::vector<size_t>> starts;
  if (starts.empty()) {
    for (size_t n = 1; n <= 4; ++n) {
      size_t c = 1;
      for (size_t i = 0; i < n; ++i) c *= 4;
      for (size_t i = 0; i < c; ++i) {
        std::vector<size_t> x;
        for (size_t j = 0, k = i; j < n; ++j, k /= 4) x.push_back(k % 4);
        // Length 4: those around the words.
        if (n == 4 && !e.thorough && !(x[0] == 0 && x[1] == 1 && x[2] == 2) && !(x[1] == 0 && x[2] == 1 && x[3] == 2) && !(x[0] == 0 && x[1] == 0 && x[2] == 0)) continue;
        starts.push_back(x);
      }
    }
  }
  auto& start = starts[e.pick(starts.size())];
  size_t back = e.pick(start.size());
  Eng g(e, o.conf(), false);
  Model m(v, o);
  std::string what = "options " + o.str() + "; ", delivered;
  auto raw = [&](const Ev& k) {
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g.view().str());
    return got;
  };
  auto press = [&](const Ev& k) {
    bool exp = m.key(k);
    if (m.pickedOffer >= 0) return true;
    bool got = raw(k);
    compare(e, g, m, got, exp, what);
    return false;
  };
  for (size_t s : start)
    for (auto& k : typed(s)) press(k);
  for (size_t i = 0; i < back; ++i) press(LEFT);
  // Optionally something was picked before.
  if (start.size() > 1 && e.pick(2)) {
    press(DOWN);
    if (m.st != Model::CHOOSE || m.total() < 2) e.prune();
    press(charKey((char)('2' + e.pick(2))));
    if (m.st == Model::CHOOSE) e.prune();
    if (m.st == Model::ASSOC) press(ESC);
  }
  // Open the offers: from the composition, or for an entry of the panel.
  if (e.pick(2)) {
    press(DOWN);
    if (m.st != Model::CHOOSE) e.prune();
    size_t hl = e.pick(m.total());
    for (size_t i = 0; i < hl; ++i) press(RIGHT);
    // The same word at two places of the composition: either may be meant.
    for (size_t i = 0; i < m.total(); ++i)
      if (i != hl && m.cands[i].value == m.cands[hl].value && m.cands[i].reading == m.cands[hl].reading) e.prune();
  }
  if (o.assoc && m.st != Model::CHOOSE) {
    // Offered by themselves, after a syllable or punctuation typed here.
    size_t s = e.pick(5);
    for (auto& k : s < 4 ? typed(s) : std::vector<Ev>{charKey('<')}) press(k);
  } else {
    press(SRET);
  }
  if (m.st != Model::ASSOC) return;
  if (m.ambiguous) e.prune();
  // The offers extend the word.
  std::string text = m.text();
  size_t n = m.offers.size(), i = e.pick(n + 2), at = m.prefixAt, len = m.prefixLen;
  Assoc offer = m.offers[std::min(i, n - 1)];
  if (i >= n) {  // not chosen
    press(i == n ? ESC : BS);
    if (i > n && m.assocShift) return;
    // What was there is still there, to the last syllable.
    if (m.st == Model::CHOOSE) press(ESC);
    if (m.st == Model::INPUT) press(END);
    if (m.st == Model::INPUT) press(CRET);
    return;
  }
  std::vector<std::string> rBefore = m.r;
  std::string left = text.substr(0, m.offsetOf(at)), right = text.substr(m.offsetOf(at + len));
  std::string prefixShown = text.substr(m.offsetOf(at), m.offsetOf(at + len) - m.offsetOf(at));
  bool fromPanel = m.assocFromPanel, tiled = true;
  // Choosing an entry of the panel that straddles words, or a word whose
  // characters are not one per syllable, may convert their rest anew.
  for (auto& p : m.walk())
    if (p.start < at + len && at < p.start + p.len && (p.start > at || p.start + p.len < at + len || chars(p.value).size() != p.len)) tiled = false;
  bool useClick = e.pick(2);
  if (i >= 9) {
    press(PGDN);
    if (m.st != Model::ASSOC || m.page != i / 9) e.prune();
  }
  if (useClick) {
    auto l = g.ic->inputPanel().candidateList();
    if ((int)i % 9 >= l->size()) e.prune();
    l->candidate((int)i % 9).select(g.ic.get());
    what += "click" + std::to_string(i + 1) + " ";
    e.note("click -> ", g.view().str());
  } else {
    if (!raw(m.assocShift ? shiftDigit((int)(i % 9) + 1) : charKey((char)('1' + i % 9)))) e.fail("a key reached the application", what);
  }
  View a = g.view();
  std::string phrase, shownChars;
  size_t known = offer.chars.size();
  for (size_t j = offer.chars.size(); j-- > len;)
    if (!v.has(offer.reads[j])) known = j;
  for (size_t j = 0; j < known; ++j) phrase += offer.chars[j];
  std::string ctx = what + ": shows " + a.str() + ", expected [" + left + phrase + right + "]";
  e.validated(1);
  if (!g.takeCommits().empty()) e.fail("picking an associated phrase delivered text", ctx);
  if (a.panel) e.fail("the panel stays open", ctx);
  if (!tiled) {
    // The rest may be converted anew; the phrase itself and its place are
    // still determined by the readings, below.
    if (a.pre.find(phrase) == std::string::npos) e.fail("the phrase is not shown", ctx);
  } else if (known == offer.chars.size()) {
    if (a.pre != left + phrase + right) e.fail("picking an associated phrase does not show it in its place", ctx);
    if ((size_t)a.caret != (left + phrase).size()) e.fail("the caret is not behind the phrase", ctx);
  } else {
    // Cut at the first reading that is unknown: the word itself is shown, and
    // perhaps a part of the rest; nothing else changes.
    bool ok = false;
    std::string part;
    for (size_t j = 0; j < offer.chars.size(); ++j) {
      part += offer.chars[j];
      if (j + 1 >= len && a.pre == left + part + right && (size_t)a.caret <= a.pre.size() && utf8Boundary(a.pre, (size_t)a.caret)) ok = true;
    }
    if (!ok) e.fail("a phrase with unknown readings damaged the composition", ctx);
  }
  // Caret and the readings: deliver them.
  std::vector<std::string> want(rBefore.begin(), rBefore.begin() + (ptrdiff_t)at);
  want.insert(want.end(), offer.reads.begin(), offer.reads.begin() + (ptrdiff_t)known);
  want.insert(want.end(), rBefore.begin() + (ptrdiff_t)(at + len), rBefore.end());
  size_t ending = e.pick(4);
  if (ending == 0) {
    raw(RET);
    std::string d = g.takeCommits();
    if (d != a.pre) e.fail("delivered text differs from the text shown", ctx + " delivered " + d);
    if (g.key(LEFT.sym, LEFT.st, LEFT.code)) e.fail("something is left behind", ctx);
  } else if (ending == 1) {
    raw(CRET);
    std::string d = g.takeCommits(), w;
    for (auto& r : want) w += (w.empty() ? "" : "-") + (r[0] == '_' ? std::string("，") : r);
    if (known == offer.chars.size() && d != w && std::find_if(want.begin(), want.end(), [](auto& r) { return r[0] == '_'; }) == want.end())
      e.fail("the readings are not those of the phrase in its place", ctx + "; delivered " + d + " expected " + w);
  } else if (ending == 2) {
    // A later conversion keeps it.
    raw(END);
    raw(charKey('<'));
    View b = g.view();
    if (b.pre != a.pre + "，") e.fail("a later key changed the composition", ctx + " then " + b.str());
  } else {
    // Erasing what was inserted, one syllable at a time.
    if (known != offer.chars.size()) return;
    for (size_t j = known; j > len; --j) raw(BS);
    raw(CRET);
    std::string d = g.takeCommits(), w = joinR(rBefore, 0, rBefore.size());
    if (std::find_if(want.begin(), want.end(), [](auto& r) { return r[0] == '_'; }) == want.end() && d != w)
      e.fail("the caret is not behind the phrase", ctx + "; delivered " + d + " expected " + w);
  }
  e.outcome(a.str());
  (void)fromPanel;
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
