// C29: preferences, the switches and entries of the status area, the settings
// file and the phrase hook.
#include <fcitx/action.h>
#include <fcitx/statusarea.h>
#include <fcitx/userinterfacemanager.h>
#include "engine_vocab.h"

struct Started {
  std::vector<std::string> args;
  std::string dir;
};
static std::vector<Started> gStarted;
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string& dir) { gStarted.push_back({args, dir}); }  // recorded, not started
}  // namespace fcitx

static Vocab settingsVocab() {
  Vocab v = editorVocab();
  double s = -10.5;
  for (auto x : {"巳", "祀", "伍", "陸", "柒", "捌", "玖", "拾", "佰", "仟"}) v.add(kSyl[2], x, s -= 0.31);
  v.add("_half_punctuation_<", ",", -8.3);
  v.add("_letter_A", "a", -8.2);
  v.assoc.push_back({{"法", "爬"}, {kSyl[3], kSyl[1]}, -1});
  v.assoc.push_back({{"法", "八", "媽"}, {kSyl[3], kSyl[0], kSyl[2]}, -2});
  return v;
}
static const Conf kDefaults = {{"BopomofoKeyboardLayout", "standard"},
                               {"CandidateLayout", "Not Set"},
                               {"SelectionKeys", "123456789"},
                               {"SelectionKeysCount", "9"},
                               {"SelectPhrase", "before_cursor"},
                               {"MoveCursorAfterSelection", "False"},
                               {"AllowMovingCursorWhenChoosingCandidates", "False"},
                               {"EscKeyClearsEntireComposingBuffer", "False"},
                               {"ShiftLetterKeys", "directly_output_uppercase"},
                               {"KeyHandlerCtrlEnter", "disabled"},
                               {"OpenUserPhraseFilesWith", "xdg-open"},
                               {"AddScriptHookPath", "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh"},
                               {"AddScriptHookEnabled", "False"},
                               {"HalfWidthPunctuationEnable", "False"},
                               {"AssociatedPhrasesEnabled", "False"}};
static const std::vector<Conf> kChanges = {
    {{"SelectPhrase", "after_cursor"}, {"MoveCursorAfterSelection", "True"}},
    {{"SelectionKeys", "asdfghjkl"}, {"CandidateLayout", "Vertical"}, {"SelectionKeysCount", "5"}},
    {{"EscKeyClearsEntireComposingBuffer", "True"}, {"ShiftLetterKeys", "put_lowercase_to_buffer"}, {"KeyHandlerCtrlEnter", "output_bpmf_reading"}},
    {{"BopomofoKeyboardLayout", "eten"}},
    {{"HalfWidthPunctuationEnable", "True"}, {"AssociatedPhrasesEnabled", "True"}, {"OpenUserPhraseFilesWith", "some-editor"}},
    {{"AllowMovingCursorWhenChoosingCandidates", "True"}, {"SelectionKeys", "asdfzxcvb"}, {"KeyHandlerCtrlEnter", "output_html_ruby_text"}, {"CandidateLayout", "Horizontal"}},
    {{"BopomofoKeyboardLayout", "hanyupinyin"}, {"OpenUserPhraseFilesWith", ""}},
    {{"BopomofoKeyboardLayout", "hsu"}, {"SelectPhrase", "after_cursor"}},
    {{"BopomofoKeyboardLayout", "et26"}, {"SelectionKeysCount", "4"}},
    {{"BopomofoKeyboardLayout", "ibm"}, {"MoveCursorAfterSelection", "True"}},
    kDefaults};
// Keys of ㄅㄚ in each layout.
static const std::map<std::string, const char*> kBa = {{"standard", "18 "}, {"eten", "ba "}, {"hsu", "by "}, {"et26", "ba "}, {"hanyupinyin", "ba "}, {"ibm", "1f "}};

static std::string lower(std::string s) {
  for (auto& c : s) c = (char)tolower((unsigned char)c);
  return s;
}
static Conf readFile(const std::string& path) {
  Conf c = kDefaults;
  std::ifstream in(path);
  for (std::string l; std::getline(in, l);) {
    size_t eq = l.find('=');
    if (l.empty() || l[0] == '#' || l[0] == '[' || eq == std::string::npos) continue;
    std::string v = l.substr(eq + 1);
    if (v.size() > 1 && v[0] == '"') v = v.substr(1, v.size() - 2);
    if (c.count(l.substr(0, eq))) c[l.substr(0, eq)] = v;
  }
  return c;
}
static std::string show(const Conf& c) {
  std::string s;
  for (auto& p : c)
    if (!kDefaults.count(p.first) || kDefaults.at(p.first) != p.second) s += p.first + "=" + p.second + " ";
  return s;
}
static Opt optOf(const Conf& c) {
  Opt o;
  auto on = [&](const char* k) { return c.at(k) == "True"; };
  o.after = c.at("SelectPhrase") == "after_cursor";
  o.move = on("MoveCursorAfterSelection");
  o.jk = on("AllowMovingCursorWhenChoosingCandidates");
  o.escClears = on("EscKeyClearsEntireComposingBuffer");
  o.lower = c.at("ShiftLetterKeys") == "put_lowercase_to_buffer";
  o.ctrlEnter = c.at("KeyHandlerCtrlEnter") == "disabled" ? 0 : c.at("KeyHandlerCtrlEnter") == "output_bpmf_reading" ? 1 : 2;
  o.half = on("HalfWidthPunctuationEnable");
  o.assoc = on("AssociatedPhrasesEnabled");
  o.keys = c.at("SelectionKeys") == "123456789" ? 0 : c.at("SelectionKeys") == "asdfghjkl" ? 1 : 2;
  o.count = std::stoi(c.at("SelectionKeysCount"));
  o.vertical = c.at("CandidateLayout") == "Vertical";
  return o;
}

static void settings(Explorer& e) {
  static const Vocab v = settingsVocab();
  static bool installed = false;
  if (!installed) install(e, v);
  installed = true;
  Conf cur = kDefaults, eff = kDefaults;  // chosen; in force for editing
  bool plain = e.pick(2);
  Eng::dirty() = true;
  // At the start: defaults, or what an earlier session left.
  size_t early = e.pick(3);
  Conf first = early == 0 ? Conf{} : early == 1 ? kChanges[4] : kChanges[1];
  for (auto& p : first) cur[p.first] = p.second;
  eff = cur;
  Eng g(e, first, plain);
  Eng::dirty() = true;
  const std::string file = g.confDir + "/mcbopomofo.conf";
  std::string what = std::string(plain ? "plain" : "smart") + " " + show(cur) + "; ", pre;
  auto& ui = fcitxInstance()->userInterfaceManager();
  auto action = [&](const char* n) {
    auto* a = ui.lookupAction(n);
    if (!a) e.fail("a switch is missing", n);
    return a;
  };
  static const char* kActs[] = {"mcbopomofo-half-width-punctuation", "mcbopomofo-associated-phrases", "mcbopomofo-user-phrases-edit",
                                "mcbopomofo-user-excluded-phrases-edit"};
  auto checkAll = [&](bool labels) {
    e.validated(1);
    Conf f = readFile(file);
    for (auto& p : cur)
      if (f[p.first] != p.second) e.fail("the settings file does not hold the setting", what + ": " + p.first + " is " + f[p.first] + ", expected " + p.second);
    fcitx::RawConfig raw;
    g.engine->getConfig()->save(raw);
    for (auto& p : cur) {
      auto* x = raw.valueByPath(p.first);
      if (!x || *x != p.second) e.fail("the preferences do not show the setting", what + ": " + p.first + " is " + (x ? *x : "missing") + ", expected " + p.second);
    }
    View a = g.view();
    if (a.pre != pre || (a.panel && pre.empty()) || !g.ic->commits.empty()) e.fail("the composition was disturbed", what + ": shows " + a.str());
    if (!labels) return;
    static std::map<std::pair<int, bool>, std::string> seen;
    for (int i = 0; i < 2; ++i) {
      bool on = cur[i ? "AssociatedPhrasesEnabled" : "HalfWidthPunctuationEnable"] == "True";
      std::string l = lower(action(kActs[i])->shortText(g.ic.get()));
      auto& s = seen[{i, on}];
      if (s.empty()) s = l;
      if (l.empty() || l != s || l == seen[{i, !on}]) e.fail("a switch does not tell its state", what + ": " + l);
    }
    auto acts = g.ic->statusArea().actions(fcitx::StatusGroup::InputMethod);
    for (int i = 0; i < 4; ++i) {
      bool there = std::find(acts.begin(), acts.end(), action(kActs[i])) != acts.end();
      if (there != (i < 2 || !plain)) e.fail("wrong entries in the status area", what + ": " + kActs[i]);
    }
  };
  auto activate = [&](bool p) {
    g.resetEvent();
    g.takeCommits();
    pre.clear();
    g.ic->statusArea().clearGroup(fcitx::StatusGroup::InputMethod);
    plain = p;
    g.activate(p);
    eff = cur;
  };
  auto type = [&](const char* s) {
    for (; *s; ++s) {
      Ev k = *s == ' ' ? SPACE : charKey(*s);
      if (!g.key(k.sym, k.st, k.code)) e.fail("a key reached the application", what + k.name);
      e.note(k.name, " -> ", g.view().str());
    }
  };
  checkAll(true);
  const size_t nc = kChanges.size();
  size_t depth = e.thorough ? 4 : 3;
  bool labelled = true;
  for (size_t d = 0; d < depth; ++d) {
    size_t op = e.pick(nc + 5 + 2 + 2 + 1 + 2 + 1);
    if (e.fresh()) e.transition();
    gStarted.clear();
    int starts = 0;
    if (op < nc) {
      fcitx::RawConfig raw;
      for (auto& p : kChanges[op]) raw.setValueByPath(p.first, p.second), cur[p.first] = p.second;
      what += "set " + show(kChanges[op]) + "; ";
      g.engine->setConfig(raw);
      labelled = false;  // the labels follow at the next activation
    } else if (op < nc + 5) {
      static const size_t which[] = {1, 3, 4, 7};
      size_t i = op - nc;
      cur = kDefaults;
      std::filesystem::remove(file);
      if (i < 4) {
        std::ofstream o(file, std::ios::trunc);
        for (auto& p : kChanges[which[i]]) o << p.first << "=" << p.second << "\n", cur[p.first] = p.second;
      }
      what += "edit the settings file to " + show(cur) + "; ";
      g.engine->reloadConfig();
      labelled = false;
    } else if (op < nc + 7) {
      int i = (int)(op - nc - 5);
      const char* k = i ? "AssociatedPhrasesEnabled" : "HalfWidthPunctuationEnable";
      eff[k] = cur[k] = cur[k] == "True" ? "False" : "True";
      what += std::string("switch ") + (i ? "associated phrases" : "half width") + "; ";
      action(kActs[i])->activate(g.ic.get());
    } else if (op < nc + 9) {
      what += op == nc + 7 ? "use smart; " : "use plain; ";
      activate(op == nc + 8);
      labelled = true;
    } else if (op == nc + 9) {
      what += "restart; ";
      g.resetEvent();
      pre.clear();
      g.ic->statusArea().clearGroup(fcitx::StatusGroup::InputMethod);
      g.engine.reset();
      g.engine = std::make_unique<McBopomofo::McBopomofoEngine>(fcitxInstance().get());
      activate(plain);
      labelled = true;
    } else if (op < nc + 12) {
      int i = (int)(op - nc - 10);
      what += i ? "edit excluded; " : "edit phrases; ";
      action(kActs[2 + i])->activate(g.ic.get());
      std::string with = cur["OpenUserPhraseFilesWith"].empty() ? "xdg-open" : cur["OpenUserPhraseFilesWith"];
      std::string path = e.scratch + "/data/fcitx5/mcbopomofo/" + (i ? "exclude-phrases.txt" : "data.txt");
      starts = 1;
      if (gStarted.size() != 1 || gStarted[0].args != std::vector<std::string>{with, path})
        e.fail("the wrong file or program is opened", what + (gStarted.empty() ? "nothing" : gStarted[0].args[0] + " " + gStarted[0].args.back()));
    } else {
      // Compose something, to see that the changes leave it alone.
      if (!pre.empty() || eff["BopomofoKeyboardLayout"] != cur["BopomofoKeyboardLayout"] || plain) e.prune();
      what += "compose; ";
      type(kBa.at(cur["BopomofoKeyboardLayout"]));
      pre = "八";
    }
    if ((int)gStarted.size() != starts) e.fail("a process was started", what);
    e.note(what);
    checkAll(labelled);
    e.state(show(cur) + "|" + show(eff) + (plain ? "p" : "s") + pre);
  }
  // Everything chosen is in force, at the latest after the next activation.
  bool act = e.pick(2);
  if (act) {
    activate(plain);
    checkAll(true);
  } else {
    g.resetEvent();
    g.takeCommits();
  }
  auto differ = [&](const char* k) { return cur[k] != eff[k]; };
  std::string layout = cur["BopomofoKeyboardLayout"];
  if (differ("BopomofoKeyboardLayout")) return;
  bool all = cur == eff;
  Opt o = optOf(cur);
  auto hint = cur["CandidateLayout"] == "Vertical" ? fcitx::CandidateLayoutHint::Vertical
              : cur["CandidateLayout"] == "Horizontal" ? fcitx::CandidateLayoutHint::Horizontal : fcitx::CandidateLayoutHint::NotSet;
  static const char* labels[] = {"123456789", "asdfghjkl", "asdfzxcvb"};
  auto panel = [&](size_t total) {
    View a = g.view();
    size_t want = std::min<size_t>(total - (size_t)(a.page * o.count), (size_t)o.count);
    if (!a.panel || a.cands.size() != total || a.labels.size() != want) e.fail("the panel does not follow the settings", what + ": " + a.str());
    if (a.layout != hint) e.fail("the panel is laid out differently", what);
    for (size_t i = 0; i < want; ++i)
      if (a.labels[i].empty() || a.labels[i][0] != labels[o.keys][i]) e.fail("a label does not name its key", what + ": " + a.labels[i]);
  };
  if (plain) {
    if (!differ("HalfWidthPunctuationEnable")) {
      type("<");
      std::string c = g.takeCommits();
      if (c != (o.half ? "," : "，")) e.fail("punctuation does not follow the setting", what + ": " + c);
    }
    type(kBa.at(layout));
    panel(2);
    type(std::string(1, labels[o.keys][0]).c_str());
    if (g.takeCommits() != "八") e.fail("the first key does not choose the first entry", what);
    if (layout != "standard") return;
    if (g.view().panel) g.resetEvent();
    type("z84");
    type(std::string(1, labels[o.keys][0]).c_str());
    g.takeCommits();
    if (!differ("AssociatedPhrasesEnabled") && g.view().panel != o.assoc) e.fail("associated phrases do not follow the setting", what);
    e.outcome(show(cur) + "plain");
    return;
  }
  if (layout != "standard") {
    type(kBa.at(layout));
    View a = g.view();
    if (a.pre != "八") e.fail("typing does not follow the keyboard layout", what + ": " + a.str());
    g.key(DOWN.sym, DOWN.st, DOWN.code);
    panel(2);
    g.resetEvent();
    if (!differ("HalfWidthPunctuationEnable")) {
      type("<");
      std::string want = o.half ? "," : "，";
      if (g.view().pre != want) e.fail("punctuation does not follow the setting", what + ": " + g.view().str());
    }
    e.outcome(show(cur) + g.view().str());
    return;
  }
  // One probe for each option, against the model.
  static const std::vector<std::vector<Ev>> probes = [] {
    std::vector<std::vector<Ev>> r;
    auto syl = [](std::vector<size_t> s) {
      std::vector<Ev> k;
      for (size_t x : s)
        for (auto& y : typed(x)) k.push_back(y);
      return k;
    };
    auto then = [](std::vector<Ev> a, std::vector<Ev> b) {
      a.insert(a.end(), b.begin(), b.end());
      return a;
    };
    r.push_back({charKey('<')});
    r.push_back(syl({3}));
    r.push_back(then(syl({0, 2, 1}), {LEFT, DOWN, RIGHT, RET, RET}));
    r.push_back(then(syl({0, 2, 1}), {LEFT, LEFT, DOWN, PGDN, charKey('2'), charKey('s'), ESC}));
    r.push_back(then(syl({2, 0, 2}), {LEFT, DOWN, charKey('j'), charKey('k'), ESC, charKey('1'), ESC, ESC}));
    r.push_back(then(syl({0}), {charKey('A'), RET}));
    r.push_back(then(syl({0, 1}), {CRET, ESC}));
    r.push_back(then(syl({0, 2}), {DOWN, UP, RIGHT, keypad('2'), END, RET}));
    return r;
  }();
  for (size_t p = 0; p < probes.size(); ++p) {
    if (!all && (p > 1 || (p == 0 && differ("HalfWidthPunctuationEnable")) || (p == 1 && differ("AssociatedPhrasesEnabled")))) continue;
    Model m(v, o);
    std::string ctx = what + " then ";
    for (auto& k : probes[p]) {
      bool exp = m.key(k), got = g.key(k.sym, k.st, k.code);
      ctx += k.name + " ";
      e.note(k.name, " -> ", g.view().str());
      compare(e, g, m, got, exp, ctx);
      if (m.st == Model::CHOOSE) panel(m.total());
    }
    g.resetEvent();
    g.takeCommits();
  }
  e.outcome(show(cur));
}

// The script run for an added phrase.
static void hook(Explorer& e) {
  static const Vocab v = settingsVocab();
  install(e, v);
  Eng::wipeUserFiles(e);
  Conf c;
  bool enabled = e.pick(2);
  size_t path = e.pick(3);
  c["AddScriptHookEnabled"] = enabled ? "True" : "False";
  std::string script = path == 0 ? kDefaults.at("AddScriptHookPath") : path == 1 ? "/opt/some where/hook.sh" : "";
  if (path) c["AddScriptHookPath"] = script;
  if (script.empty()) script = kDefaults.at("AddScriptHookPath");
  static const std::vector<std::vector<size_t>> starts = {{0, 1}, {2, 1, 2}, {1, 1, 3, 0}, {2, 0, 1, 1, 2, 3, 3}, {0}};
  auto& start = starts[e.pick(starts.size())];
  Eng::dirty() = true;
  Eng g(e, c, false);
  std::string what = show(c) + "; ";
  Opt o;
  Vocab known = v;
  Model m(known, o);
  gStarted.clear();
  auto press = [&](const Ev& k) {
    size_t before = m.added.size(), ran = gStarted.size();
    bool exp = m.key(k), got = g.key(k.sym, k.st, k.code);
    if (e.fresh()) e.transition();
    what += k.name + " ";
    e.note(k.name, " -> ", g.view().str());
    compare(e, g, m, got, exp, what);
    size_t want = m.added.size() > before && enabled ? 1 : 0;
    if (gStarted.size() - ran != want) e.fail(want ? "the script is not run once for an added phrase" : "a script was run", what);
    if (want) {
      auto& s = gStarted.back();
      if (s.args != std::vector<std::string>{"/bin/sh", script, m.added.back().phrase}) e.fail("the script is run with something else", what + ": " + s.args.back());
      if (s.dir.empty() || !std::filesystem::is_directory(s.dir)) e.fail("the script is run elsewhere", what + ": " + s.dir);
      if (std::filesystem::path(s.dir).lexically_normal().string().find(e.scratch + "/data/fcitx5/mcbopomofo") != 0) e.fail("the script is run elsewhere", what + ": " + s.dir);
    }
  };
  for (size_t s : start)
    for (auto& k : typed(s)) press(k);
  size_t n = start.size(), from = e.pick(n + 1), to = e.pick(n + 1);
  if (from == to) e.prune();
  while (m.cur > from) press(LEFT);
  while (m.cur > to) press(SLEFT);
  while (m.cur < to) press(SRIGHT);
  press(e.pick(2) ? RET : ESC);
  e.outcome(gStarted.empty() ? "none" : gStarted[0].args.back());
  if (m.added.empty()) {
    press(END);
    return;
  }
  // The same once more is already known; nothing is run again.
  size_t ran = gStarted.size();
  for (auto& k : {SLEFT, SLEFT}) g.key(k.sym, k.st, k.code);
  if (gStarted.size() != ran) e.fail("a script was run", what);
}
static void body(Explorer& e) { e.pick(2) ? hook(e) : settings(e); }
int main(int argc, char** argv) {
  setenv("LANGUAGE", "C", 1);
  return mc::run(argc, argv, body, 4);
}
