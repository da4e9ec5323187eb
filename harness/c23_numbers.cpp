// C23: the feature menu, the number entry features and the date list, in both
// input methods, under a fixed clock.
#include <sys/time.h>
#include <chrono>
#include "ChineseNumbers/ChineseNumbers.h"
#include "ChineseNumbers/SuzhouNumbers.h"
#include "InputMacro.h"
#include "engine_vocab.h"

// The clock stands still: the date list does not change under our feet.
static const long long kNow = 1714521600LL - 3600 * 20;  // 2024-04-30
extern "C" int gettimeofday(struct timeval* t, void*) {
  t->tv_sec = kNow;
  t->tv_usec = 0;
  return 0;
}
extern "C" time_t time(time_t* p) {
  if (p) *p = kNow;
  return kNow;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(std::chrono::seconds(kNow))); }
} } }

static const char* kFeatures[] = {"日期與時間", "標題數字", "中文數字", "大寫數字", "蘇州碼"};
static const char* kPrefix[] = {"", "[標題數字] ", "[中文數字] ", "[大寫數字] ", "[蘇州碼] "};
static const char* kDates[] = {"DATE_TODAY_SHORT", "DATE_TODAY_MEDIUM", "DATE_TODAY_MEDIUM_ROC", "DATE_TODAY_MEDIUM_CHINESE", "DATE_TODAY_MEDIUM_JAPANESE",
                               "THIS_YEAR_PLAIN", "THIS_YEAR_PLAIN_WITH_ERA", "THIS_YEAR_ROC", "THIS_YEAR_JAPANESE", "DATE_TODAY_WEEKDAY_SHORT",
                               "DATE_TODAY_WEEKDAY", "DATE_TODAY2_WEEKDAY", "DATE_TODAY_WEEKDAY_JAPANESE", "TIME_NOW_SHORT", "TIME_NOW_MEDIUM",
                               "THIS_YEAR_GANZHI", "THIS_YEAR_CHINESE_ZODIAC"};

static Vocab numberVocab() {
  Vocab v = editorVocab();
  v.add("_number_1", "①", -8.21);
  v.add("_number_10", "⑩", -8.23);
  v.add("_number_10", "⓾", -8.27);
  v.add("_number_10", "㈩", -8.29);
  v.add("_number_0", "⓪", -8.31);
  v.add("_number_01", "⒈", -8.33);
  v.add("_number_100", "百", -8.35);
  v.add("_number_100", "佰", -8.37);
  v.add("_number_11", "⑪", -8.39);
  v.add("_number_7", "𝟟", -8.41);
  v.add("_number_7", "⑦", -8.43);
  return v;
}
static std::string rendering(size_t feature, const std::string& n) {
  size_t dot = n.find('.');
  std::string i = n.substr(0, dot), d = dot == std::string::npos ? "" : n.substr(dot + 1);
  if (feature == 2) return ChineseNumbers::Generate(i, d, ChineseNumbers::ChineseNumberCase::LOWERCASE);
  if (feature == 3) return ChineseNumbers::Generate(i, d, ChineseNumbers::ChineseNumberCase::UPPERCASE);
  return SuzhouNumbers::Generate(i, d, "單位", true);
}

struct Drive {
  Explorer& e;
  Eng& g;
  std::string what;
  bool got = false;
  std::string out;  // delivered by the last key
  View a;
  void press(const Ev& k) {
    got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    out = g.takeCommits();
    a = g.view();
    what += k.name + " ";
    e.note(k.name, " -> ", a.str(), " delivers [", out, "]", got ? "" : " not consumed");
    e.state(a.str());
    e.validated(1);
  }
  [[noreturn]] void bad(const std::string& s) { e.fail(s, what + ": shows " + a.str() + " delivered [" + out + "]" + (got ? "" : " not consumed")); }
  void nothing() {
    if (!out.empty()) bad("text was delivered");
  }
  void gone() {
    if (!a.pre.empty() || a.panel) bad("something is left");
    // Nothing is composed: an ordinary key reaches the application.
    View keep = a;
    if (g.key(LEFT.sym, LEFT.st, LEFT.code)) bad("a hidden state keeps the keys");
    if (!g.takeCommits().empty()) bad("text was delivered later");
    a = keep;
  }
};

// Opens a feature from whatever is going on. Returns false when it is the
// menu's cancellation that was explored.
static bool openMenu(Drive& d, size_t from) {
  Explorer& e = d.e;
  bool plain = d.g.plain;
  if (from >= 1) {  // something is composed
    for (auto& k : typed(0)) d.press(k);
    if (!plain && from >= 2)
      for (auto& k : typed(1)) d.press(k);
  }
  std::string displayed = d.a.pre, unfinished;
  if (from == 3) d.press(charKey('1')), unfinished = "ㄅ";
  if (from == 4 && !plain) d.press(DOWN);
  if (from == 5 && !plain) d.press(SLEFT);
  std::string hl;
  if (d.a.panel && d.a.cursor >= 0) hl = d.a.cands[(size_t)d.a.cursor];
  std::string pre = d.a.pre;
  d.g.takeCommits();
  View before = d.a;
  d.press(ctrlKey('\\'));
  if (before.panel) {  // a panel that is open keeps all the keys
    if (!d.got || d.a != before || !d.out.empty()) d.bad("the feature key changed the open panel");
    d.press(ESC);
    d.g.takeCommits();
    pre = displayed = d.a.pre;
    d.press(ctrlKey('\\'));
  }
  if (!d.got) d.bad("the feature key reached the application");
  if (!(d.out == pre || (from == 3 && d.out == displayed) || (plain && (d.out.empty() || d.out == hl)))) d.bad("opening the menu did not deliver the composition once");
  if (d.a.cands != std::vector<std::string>(kFeatures, kFeatures + 5) || !d.a.panel || !d.a.pre.empty()) d.bad("not the feature menu");
  if (d.a.cursor != 0 || d.a.layout != fcitx::CandidateLayoutHint::Vertical) d.bad("the menu is not as expected");
  (void)e;
  return true;
}
static void opened(Drive& d, size_t f) {
  if (!d.got) d.bad("a key reached the application");
  d.nothing();
  if (f == 0) {
    McBopomofo::InputMacroController ctl;
    if (!d.a.panel || !d.a.pre.empty() || d.a.cands.size() != 17) d.bad("not the date list");
    for (size_t i = 0; i < 17; ++i)
      if (d.a.cands[i] != ctl.handle(std::string("MACRO@") + kDates[i])) d.bad(std::string("wrong entry in the date list: ") + kDates[i]);
  } else if (d.a.panel || d.a.pre != kPrefix[f]) {
    d.bad(std::string("selected ") + kFeatures[f]);
  }
}
static void openFeature(Drive& d, size_t f) {
  openMenu(d, 0);
  d.press(charKey((char)('1' + f)));
  opened(d, f);
}

static void menuFamily(Explorer& e, Drive& d) {
  openMenu(d, e.pick(d.g.plain ? 2 : 6));
  // Keys that mean nothing, or only move the highlight.
  static const std::vector<Ev> idle = {charKey('6'), charKey('9'), charKey('0'), charKey('a'), charKey('.'), F1, MOD, CTRLA, HOME, END, LEFT, RIGHT, UP, PGUP, PGDN, SLEFT, SPACE, keypad('9'), DEL, STAB};
  size_t n = e.pick(e.thorough ? 3 : 2);
  for (size_t i = 0; i < n; ++i) {
    d.press(idle[e.pick(idle.size())]);
    if (!d.got) d.bad("a key reached the application");
    d.nothing();
    if (!d.a.panel || d.a.cands.size() != 5 || d.a.cursor < 0 || d.a.cursor > 4 || !d.a.pre.empty()) d.bad("a key that means nothing changed the menu");
  }
  size_t how = e.pick(6), f = e.pick(5);
  if (how == 0) {
    d.press(charKey((char)('1' + f)));
  } else if (how == 1) {
    d.press(keypad((char)('1' + f)));
  } else if (how <= 3) {
    for (size_t i = 0; i < f; ++i) {
      int c = d.a.cursor;
      d.press(how == 2 ? DOWN : UP);
      if (!d.got || (how == 2 ? d.a.cursor != (c + 1) % 5 : c > 0 && d.a.cursor != c - 1)) d.bad("the highlight did not move");
      d.nothing();
    }
    f = (size_t)d.a.cursor;
    d.press(RET);
  } else if (how == 4) {
    auto l = d.g.ic->inputPanel().candidateList();
    if ((int)f >= l->size()) e.prune();
    l->candidate((int)f).select(d.g.ic.get());
    d.what += "click" + std::to_string(f + 1) + " ";
    d.got = true;
    d.out = d.g.takeCommits();
    d.a = d.g.view();
  } else {
    d.press(f % 2 ? ESC : BS);
    if (!d.got) d.bad("a key reached the application");
    d.nothing();
    d.gone();
    return;
  }
  opened(d, f);
  e.outcome(kFeatures[f]);
}

static void dateFamily(Explorer& e, Drive& d) {
  openFeature(d, 0);
  size_t hl = 0, target = e.pick(18), how = e.pick(3);
  auto all = d.a.cands;
  if (target == 17) {
    if (how) d.press(DOWN);
    d.press(how == 2 ? BS : ESC);
    if (!d.got) d.bad("a key reached the application");
    d.nothing();
    d.gone();
    return;
  }
  if (how == 0) {
    for (; hl < target; ++hl) d.press(DOWN);
    if (d.a.cursor != (int)target) d.bad("the highlight did not move");
    d.press(RET);
  } else {
    if (target >= 9) d.press(how == 1 ? PGDN : SPACE);
    d.press(how == 1 ? charKey((char)('1' + target % 9)) : keypad((char)('1' + target % 9)));
  }
  if (d.out != all[target]) d.bad("not the entry that was chosen: " + all[target]);
  if (!d.got) d.bad("a key reached the application");
  d.gone();
  e.outcome(all[target]);
}

// Entering a number; `number` is what was entered so far.
static bool step(Explorer& e, Drive& d, size_t f, std::string& number, const Ev& k, const Vocab& v) {
  char c = k.c;
  if (!c && k.name.rfind("KP_", 0) == 0) c = k.name[3];
  d.press(k);
  if (!d.got) d.bad("a key reached the application");
  auto shows = [&] {
    if (d.a.panel || d.a.pre != kPrefix[f] + number) d.bad("expected " + std::string(kPrefix[f]) + number);
    if (d.a.caret != (int)d.a.pre.size()) d.bad("the caret is not behind the number");
  };
  size_t limit = f == 1 ? 3 : 21;
  bool full = number.size() >= limit;
  if (c >= '0' && c <= '9') {
    if (!full) number += c;
  } else if (c == '.' && f != 1) {
    if (!number.empty() && number.find('.') == std::string::npos && !full) number += c;
  } else if (same(k, BS) || same(k, DEL)) {
    if (!number.empty()) number.pop_back();
  } else if (same(k, ESC)) {
    d.nothing();
    d.gone();
    return false;
  } else if (same(k, RET) || (f == 1 && same(k, SPACE))) {
    if (number.empty()) {
      d.nothing();
      d.gone();
      return false;
    }
    if (f != 1) {
      std::string r = rendering(f, number);
      if (d.out != r) d.bad("expected " + r);
      d.gone();
      e.outcome(r);
      return false;
    }
    auto u = v.get("_number_" + number);
    if (u.size() == 1) {
      if (d.out != u[0].first) d.bad("expected " + u[0].first);
      d.gone();
      return false;
    }
    if (u.size() > 1) {
      // One of them is to be chosen.
      d.nothing();
      std::vector<std::string> forms;
      for (auto& x : u) forms.push_back(x.first);
      if (!d.a.panel || d.a.cands != forms || d.a.cursor != 0) d.bad("not the choice of enclosed forms");
      size_t how = e.pick(4), i = e.pick(forms.size());
      if (how == 0) d.press(charKey((char)('1' + i)));
      else if (how == 1) {
        for (size_t j = 0; j < i; ++j) d.press(RIGHT);
        d.press(RET);
      } else if (how == 2) {
        d.press(i ? BS : ESC);
      } else {
        d.press(F1);
        if (!d.got || !d.a.panel || d.a.cands != forms || !d.out.empty()) d.bad("a key that means nothing changed the panel");
        d.press(keypad((char)('1' + i)));
      }
      if (!d.got) d.bad("a key reached the application");
      if (how == 2) {
        d.nothing();
        if (d.g.plain) d.gone();
        return false;
      }
      if (d.g.plain) {
        if (d.out != forms[i]) d.bad("expected " + forms[i]);
        d.gone();
        return false;
      }
      d.nothing();
      if (d.a.panel || d.a.pre != forms[i]) d.bad("the composition does not hold " + forms[i]);
      d.press(RET);
      if (d.out != forms[i] || !d.got) d.bad("expected " + forms[i]);
      d.gone();
      e.outcome(forms[i]);
      return false;
    }
  }
  d.nothing();
  shows();
  return true;
}

static void body(Explorer& e) {
  static const Vocab v = numberVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  size_t family = e.pick(5);
  bool plain = e.pick(2);
  Opt o;
  o.after = e.pick(2);
  if (o.after && family != 2) e.prune();
  Eng g(e, o.conf(), plain, family != 3 || plain);
  Drive d{e, g, plain ? "plain: " : "", false, "", {}};
  if (family == 0) return menuFamily(e, d);
  if (family == 1) return dateFamily(e, d);
  size_t f = 1 + e.pick(4);
  openFeature(d, f);
  std::string number;
  static const std::vector<Ev> wide = {charKey('0'), charKey('1'), charKey('9'), keypad('5'), keypad('8'), charKey('.'), keypad('.'), BS, DEL, ESC, RET, SPACE, charKey('a'),
                                       LEFT, DOWN, TAB, STAB, charKey('!'), charKey(','), F1, MOD, PGDN, CTRLA, SLEFT, HOME, charKey('-'), keypad('+'), charKey('/'), charKey(':')};
  static const std::vector<Ev> narrow = {charKey('0'), charKey('1'), charKey('7'), charKey('.'), BS, RET};
  if (family == 2) {
    int depth = f == 1 ? (e.thorough ? 7 : 6) : e.thorough ? 8 : 6;
    if (o.after && f != 1) e.prune();
    for (int i = 0; i < depth; ++i)
      if (!step(e, d, f, number, narrow[e.pick(narrow.size())], v)) return;
  } else if (family == 3) {
    for (int i = 0; i < (e.thorough ? 4 : 3); ++i)
      if (!step(e, d, f, number, wide[e.pick(wide.size())], v)) return;
    step(e, d, f, number, RET, v);
  } else {
    if (f == 1) e.prune();
    // Near the length limit.
    size_t len = 18 + e.pick(4), dot = e.pick(len + 1), digits = e.pick(3);
    for (size_t i = 0; i < len; ++i) {
      char c = digits == 0 ? (char)('1' + i % 9) : digits == 1 ? '0' : (i % 4 == 1 ? '7' : '0');
      if (i == dot && i) c = '.';
      if (!step(e, d, f, number, charKey(c), v)) return;
    }
    if (number.size() != len) d.bad("lost a key");
    static const std::vector<Ev> ks = {charKey('7'), charKey('.'), BS, RET};
    for (int i = 0; i < (e.thorough ? 5 : 4); ++i)
      if (!step(e, d, f, number, ks[e.pick(ks.size())], v)) return;
    step(e, d, f, number, RET, v);
  }
  e.outcome(number);
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
