// C26: dictionary definitions, the addresses opened, and the dictionary menu.
#include "DictionaryService.h"
#include "engine_vocab.h"

static std::vector<std::vector<std::string>> gStarted;
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string&) { gStarted.push_back(args); }  // recorded, not started
}  // namespace fcitx

// RFC 3986: everything but the unreserved characters, as UTF-8 bytes.
static std::string percent(const std::string& s) {
  static const char* hex = "0123456789ABCDEF";
  std::string r;
  for (unsigned char c : s) {
    if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '-' || c == '_' || c == '.' || c == '~') {
      r += (char)c;
    } else {
      r += '%';
      r += hex[c >> 4];
      r += hex[c & 15];
    }
  }
  return r;
}
static const char* kPlace = "(encoded)";
static bool addressOk(const std::string& got, const std::string& tmpl, const std::string& phrase) {
  size_t at = tmpl.find(kPlace);
  if (at == std::string::npos) return got == tmpl;
  std::string once = tmpl, all = tmpl;
  once.replace(at, 9, percent(phrase));
  for (size_t i = at; i != std::string::npos; i = all.find(kPlace, i + percent(phrase).size())) all.replace(i, 9, percent(phrase));
  return got == once || got == all;
}

struct Def {
  const char* json;
  const char* name;  // null: malformed
  const char* url;
  bool maybe = false;  // may be shown or skipped
};
static const Def kDefs[] = {
    {R"~({"name":"one","url_template":"https://a.example/?q=(encoded)&z=1#f"})~", "one", "https://a.example/?q=(encoded)&z=1#f"},
    {R"~({"url_template":"(encoded)","name":"萌典 {0} %s"})~", "萌典 {0} %s", "(encoded)"},
    {R"~({"name":"two","url_template":"https://b.example/x:(encoded)"})~", "two", "https://b.example/x:(encoded)"},
    {R"~({"name":"plain","url_template":"https://c.example/"})~", "plain", "https://c.example/", true},
    {R"~({"name":"twice","url_template":"https://d.example/(encoded)/(encoded)/e"})~", "twice", "https://d.example/(encoded)/(encoded)/e"},
    {R"~({"name":"no address"})~", nullptr, nullptr},
    {R"~({"url_template":"https://e.example/(encoded)"})~", nullptr, nullptr},
    {R"~({"name":null,"url_template":"https://f.example/(encoded)"})~", nullptr, nullptr},
    {R"~({"name":"null","url_template":null})~", nullptr, nullptr},
    {R"~(null)~", nullptr, nullptr},
    {R"~("text")~", nullptr, nullptr},
    {R"~(7)~", nullptr, nullptr},
    {R"~([])~", nullptr, nullptr},
    {R"~({})~", nullptr, nullptr},
    {R"~({"name":["x"],"url_template":{"y":1}})~", nullptr, nullptr, true},
    {R"~({"name":5,"url_template":6})~", nullptr, nullptr, true},
    {R"~({"name":"","url_template":""})~", "", "", true},
    {R"~({"name":"extra","x":[1,{"y":null}],"url_template":"https:\/\/g.example\/(encoded)\"q"})~", "extra", "https://g.example/(encoded)\"q"},
};
static const size_t kDefCount = sizeof kDefs / sizeof *kDefs;
static std::vector<std::string> phrases() {
  std::vector<std::string> r = {"媽", "巴爬", "𡃁𡃂", "甲乙丙丁戊己", "(encoded)", "a b&c=d+e/f?g#h%20", "~-_.AZaz09", "\"'<>\\", "é"};
  for (int c = 1; c < 256; ++c) r.push_back(std::string(1, (char)c));
  r.push_back("");
  return r;
}

static void writeDefs(Explorer& e, const std::string& text) {
  std::string d = e.scratch + "/sysdata/fcitx5/data/";
  std::filesystem::create_directories(d);
  std::ofstream(d + "mcbopomofo-dictionary-service.json", std::ios::trunc) << text;
}

// Definitions of every shape: what is listed and what each address becomes.
static void definitions(Explorer& e) {
  std::string text, what;
  std::vector<const Def*> defs;
  size_t shape = e.pick(4);
  if (shape == 0) {
    size_t n = e.pick(e.thorough ? 4 : 3);
    text = "{\"services\":[";
    for (size_t i = 0; i < n; ++i) {
      defs.push_back(&kDefs[e.pick(kDefCount)]);
      text += (i ? "," : "") + std::string(defs.back()->json);
    }
    text += "]}";
  } else if (shape == 1) {
    static const char* docs[] = {"", "[]", "null", "3", "\"services\"", "{}", "{\"services\":null}", "{\"services\":{}}", "{\"services\":\"x\"}", "{\"services\":7}",
                                 "{\"services\":true}", "{\"services\":[[[]]]}", "{\"Services\":[]}", "{", "}", "\xef\xbb\xbf{}", "\n", "{\"services\":[,]}", "garbage"};
    text = docs[e.pick(sizeof docs / sizeof *docs)];
  } else if (shape == 2) {
    std::string full = std::string("{\"services\":[") + kDefs[0].json + "," + kDefs[2].json + "]}";
    text = full.substr(0, e.pick(full.size()));
  } else {
    // A long list.
    size_t n = 1 + e.pick(30);
    text = "{\"services\":[";
    for (size_t i = 0; i < n; ++i) {
      defs.push_back(&kDefs[i % 3]);
      text += (i ? "," : "") + std::string(defs.back()->json);
    }
    text += "],\"other\":1}";
  }
  writeDefs(e, text);
  McBopomofo::DictionaryServices s;
  s.load();
  if (e.fresh()) e.transition();
  e.validated(1);
  what = "definitions " + text;
  e.note(what);
  if (!s.hasServices()) e.fail("no service at all", what);
  const std::string probe = "詞\x7f";
  auto menu = s.menuForPhrase(probe);
  // Align the menu with the definitions; the first entry is built in.
  size_t at = 1;
  std::vector<std::pair<size_t, const Def*>> match;
  for (auto d : defs) {
    bool there = false;
    if (at < menu.size()) {
      if (d->name) {
        // The menu entry names the dictionary and the text.
        gStarted.clear();
        there = menu[at].find(d->name) != std::string::npos && menu[at].find(probe) != std::string::npos;
        if (there && d->maybe) {
          McBopomofo::StateCallback none = [](std::unique_ptr<McBopomofo::InputState>) {};
          s.lookup(probe, at, nullptr, none);
          there = gStarted.size() == 1 && gStarted[0].size() == 2 && gStarted[0][1] == d->url;
        }
      } else if (d->maybe) {
        there = menu.size() - at > 0;
        // Shown only when it cannot be the next well-formed one.
        for (auto& x : kDefs)
          if (x.name && *x.name && menu[at].find(x.name) != std::string::npos) there = false;
      }
    }
    if (there) match.push_back({at++, d});
    else if (d->name && !d->maybe) e.fail("a dictionary is missing", what + ": " + d->name);
  }
  if (at != menu.size()) e.fail("the menu lists something that is not defined", what + ": " + std::to_string(menu.size()) + " entries");
  static const auto P = phrases();
  for (auto& m : match) {
    if (!m.second->name) continue;
    for (auto& p : P) {
      if (defs.size() > 2 && p.size() == 1) continue;
      gStarted.clear();
      int states = 0;
      bool empty = false;
      s.lookup(p, m.first, nullptr, [&](std::unique_ptr<McBopomofo::InputState> n) {
        ++states;
        empty = dynamic_cast<McBopomofo::InputStates::Empty*>(n.get()) != nullptr;
      });
      if (gStarted.size() != 1 || gStarted[0].size() != 2 || gStarted[0][0] != "xdg-open" || !addressOk(gStarted[0][1], m.second->url, p))
        e.fail("wrong address", what + " for " + mc::quote(p) + ": " + (gStarted.empty() || gStarted[0].size() != 2 ? "none" : gStarted[0][1]));
      if (states != 1 || !empty) e.fail("the panel is not closed once", what);
    }
  }
  gStarted.clear();
  bool called = false;
  s.lookup("x", menu.size(), nullptr, [&](std::unique_ptr<McBopomofo::InputState>) { called = true; });
  if (called || !gStarted.empty()) e.fail("an entry past the end does something", what);
  e.outcome(std::to_string(menu.size()) + text);
}

static Vocab dictVocab() {
  Vocab v = editorVocab();
  double s = -10.5;
  for (auto x : {"巳", "祀", "ab&c=d", "100%", "(encoded)", "<x>", "𡃁", "伍", "陸", "柒", "é"}) v.add(kSyl[2], x, s -= 0.31);
  v.add(std::string(kSyl[0]) + "-" + kSyl[2], "一二三四五六七八九", -19.1);
  v.add("_punctuation_?", "？", -8.6);
  return v;
}
// The menu, from a panel entry or a marking.
static void menus(Explorer& e) {
  static Vocab v = dictVocab();
  static const std::vector<const Def*> defs = {&kDefs[0], &kDefs[1], &kDefs[2], &kDefs[0], &kDefs[2], &kDefs[17], &kDefs[0], &kDefs[2], &kDefs[17], &kDefs[1]};
  {
    std::string text = "{\"services\":[";
    for (auto d : defs) text += (text.back() == '[' ? "" : ",") + std::string(d->json);
    static bool installed = false;
    if (!installed) install(e, v, text + "]}");
    installed = true;
  }
  Opt o;
  size_t bits = e.pick(e.thorough ? 8 : 4);
  o.after = bits & 1;
  o.vertical = bits & 2;
  o.move = bits & 4;
  o.keys = bits == 3 ? 1 : 0;
  static const std::vector<std::vector<size_t>> starts = {{2}, {0, 1}, {2, 0, 1}, {0, 2, 3, 1}, {1, 3, 2}};
  auto& start = starts[e.pick(starts.size())];
  Eng g(e, o.conf(), false, bits != 1);
  Model m(v, o);
  std::string what = "options " + o.str() + "; ";
  auto raw = [&](const Ev& k) {
    bool got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    View a = g.view();
    e.state(a.str());
    e.note(k.name, " -> ", a.str());
    return got;
  };
  auto press = [&](const Ev& k) {
    bool exp = m.key(k), got = raw(k);
    compare(e, g, m, got, exp, what);
  };
  for (size_t s : start)
    for (auto& k : typed(s)) press(k);
  std::string phrase;
  bool marking = e.pick(2);
  if (marking) {
    size_t n = start.size(), from = e.pick(n + 1), to = e.pick(n + 1);
    if (from == to) e.prune();
    for (size_t i = 0; i < n && m.cur > from; ++i) press(LEFT);
    for (size_t i = 0; i < n && m.cur > to; ++i) press(SLEFT);
    for (size_t i = 0; i < n && m.cur < to; ++i) press(SRIGHT);
    if (m.st != Model::MARK) e.prune();
    phrase = m.view().marked;
  } else {
    size_t back = e.pick(start.size());
    for (size_t i = 0; i < back; ++i) press(LEFT);
    press(DOWN);
    size_t hl = e.pick(m.total());
    if (e.pick(2) && hl >= 9) {
      press(PGDN);
      if (m.hl / 9 != hl / 9) e.prune();
      for (size_t i = 0; i < 9 && m.hl < hl; ++i) press(g.view().layout == fcitx::CandidateLayoutHint::Vertical ? DOWN : RIGHT);
    } else {
      for (size_t i = 0; i < hl; ++i) press(g.view().layout == fcitx::CandidateLayoutHint::Vertical ? DOWN : RIGHT);
    }
    if (m.hl != hl) e.prune();
    phrase = m.cands[m.hl].value;
  }
  View before = g.view();
  std::string composed = m.text();
  auto bad = [&](const std::string& s) { e.fail(s, what + "(" + phrase + "): shows " + g.view().str() + ", was " + before.str()); };
  auto key = [&](const Ev& k) {
    if (!raw(k)) bad("a key reached the application");
    e.validated(1);
  };
  gStarted.clear();
  key(charKey('?'));
  View menu = g.view();
  auto isMenu = [&] {
    View a = g.view();
    if (!a.panel || a.cands.size() != defs.size() + 1 || a.pre != before.pre || a.caret != before.caret || !g.ic->commits.empty() || !gStarted.empty()) bad("not the dictionary menu");
    for (size_t i = 0; i < defs.size(); ++i)
      if (a.cands[i + 1].find(defs[i]->name) == std::string::npos || a.cands[i + 1].find(phrase) == std::string::npos) bad("the menu does not name the dictionary and the text");
    if (a.cursor < 0 || a.cursor >= (int)a.cands.size()) bad("highlight outside the menu");
  };
  isMenu();
  // A key or two that mean nothing or move the highlight.
  static const std::vector<Ev> idle = {DOWN, UP, PGDN, LEFT, RIGHT, F1, MOD, charKey('0'), charKey('?'), CTRLA, DEL, SPACE, HOME, END, SLEFT, SRET};
  bool idled = e.pick(2);
  if (idled) {
    auto& k = idle[e.pick(idle.size())];
    key(k);
    if (same(k, charKey('?'))) {  // leaves the menu
      if (g.view() != before) bad("leaving the menu does not restore what was there");
      key(k);
    }
    isMenu();
  }
  size_t how = idled ? 0 : e.pick(3), target;
  static const size_t few[] = {2, defs.size() + 2};
  target = idled && !e.thorough ? few[e.pick(2)] : e.pick(defs.size() + 3);
  if (target > defs.size()) {  // cancel
    if (how == 2) e.prune();
    key(how ? ESC : BS);
    if (g.view() != before || !g.ic->commits.empty()) bad("leaving the menu does not restore what was there");
    if (target > defs.size() + 1) {
      // The editing goes on as if nothing had been opened.
      static const std::vector<Ev> next = {RET, ESC, LEFT, RIGHT, DOWN, SLEFT, SRIGHT, PGDN, charKey('2')};
      size_t i = e.pick(next.size());
      if (i == 0 && m.st == Model::MARK) return;  // adds a phrase: C21
      press(next[i]);
      if (m.st == Model::CHOOSE) press(ESC);
      if (m.st == Model::MARK) press(ESC);
      if (m.st == Model::INPUT) press(RET);
    }
    return;
  }
  if (how == 2) {
    size_t tries = 0;
    while (g.view().cursor != (int)target && tries++ < 30) key(DOWN);
    if (g.view().cursor != (int)target) bad("the highlight does not reach every entry");
    key(RET);
  } else {
    int page = (int)target / 9;
    if (g.view().page != page) {
      for (int i = 0; i < 3 && g.view().page != page; ++i) key(SPACE);
      if (g.view().page != page) bad("the page is not reached");
    }
    if (how == 0) {
      static const char* labels[] = {"123456789", "asdfghjkl"};
      key(charKey(labels[o.keys][target % 9]));
    } else {
      auto l = g.ic->inputPanel().candidateList();
      l->candidate((int)target % 9).select(g.ic.get());
      what += "click " + std::to_string(target) + " ";
    }
  }
  if (target == 0) {  // character information
    View a = g.view();
    if (!gStarted.empty() || !g.ic->commits.empty() || !a.panel || a.cands.size() != 2 || a.pre != before.pre || a.caret != before.caret) bad("not the character information");
    size_t points = chars(phrase).size();
    if (a.cands[0].find(std::to_string(phrase.size())) == std::string::npos || a.cands[1].find(std::to_string(points)) == std::string::npos) bad("wrong character information: " + a.cands[0] + "; " + a.cands[1]);
    size_t x = e.pick(5);
    if (x == 1) key(charKey('1'));
    if (x == 2) key(RET);
    if (x == 3) key(DOWN);
    if (x == 4) key(F1);
    if (x && (g.view().cands != a.cands || g.view().pre != a.pre || !g.ic->commits.empty())) bad("a key that means nothing changed the character information");
    key(e.pick(2) ? ESC : charKey('?'));
    isMenu();
    key(e.pick(2) ? BS : ESC);
    if (g.view() != before || !g.ic->commits.empty()) bad("leaving the menu does not restore what was there");
    return;
  }
  if (gStarted.size() != 1 || gStarted[0].size() != 2 || gStarted[0][0] != "xdg-open" || !addressOk(gStarted[0][1], defs[target - 1]->url, phrase))
    bad("wrong address: " + (gStarted.empty() || gStarted[0].size() < 2 ? std::string("none") : gStarted[0][1]));
  std::string d = g.takeCommits();
  View a = g.view();
  if (d != composed || !a.pre.empty() || a.panel) bad("looking up did not deliver the composition once: " + d);
  if (g.key(LEFT.sym, LEFT.st, LEFT.code)) bad("something is left behind");
  for (auto& k : typed(3)) g.key(k.sym, k.st, k.code);
  if (g.view().pre != "法") bad("something is left behind");
  e.outcome(gStarted[0][1]);
}
static void body(Explorer& e) {
  size_t f = e.pick(2);
  f ? menus(e) : definitions(e);
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 4); }
