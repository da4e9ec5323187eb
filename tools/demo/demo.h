// A small driver for demonstrations: the engine with a recording input
// context and generated data, everything inside a scratch directory.
#pragma once
#include <fcitx-config/rawconfig.h>
#include <fcitx-utils/log.h>
#include <fcitx/candidatelist.h>
#include <fcitx/event.h>
#include <fcitx/inputcontext.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputmethodentry.h>
#include <fcitx/inputpanel.h>
#include <fcitx/instance.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include "McBopomofo.h"

static std::string scratchDir() { return getenv("DEMO_SCRATCH"); }
using KeyS = fcitx::KeySym;
static const fcitx::KeyStates SHIFT{fcitx::KeyState::Shift}, CTRL{fcitx::KeyState::Ctrl}, NONE{};

struct DemoIC : fcitx::InputContext {
  std::string out;
  explicit DemoIC(fcitx::InputContextManager& m) : InputContext(m, "demo") { created(); }
  ~DemoIC() override { destroy(); }
  const char* frontend() const override { return "demo"; }
  void commitStringImpl(const std::string& s) override { out += s; }
  void deleteSurroundingTextImpl(int, unsigned int) override {}
  void forwardKeyImpl(const fcitx::ForwardKeyEvent&) override {}
  void updatePreeditImpl() override {}
};
struct Demo {
  std::unique_ptr<McBopomofo::McBopomofoEngine> engine;
  std::unique_ptr<DemoIC> ic;
  bool plain;
  static std::string fileOf(std::vector<std::string> lines) {
    std::sort(lines.begin(), lines.end());
    std::string s = "# format org.openvanilla.mcbopomofo.sorted\n";
    for (auto& l : lines) s += l + "\n";
    return s;
  }
  static void data(const std::vector<std::string>& lines, const std::vector<std::string>& assoc = {}, const std::string& dict = "") {
    std::string d = scratchDir() + "/sysdata/fcitx5/data/";
    std::filesystem::create_directories(d);
    std::ofstream(d + "mcbopomofo-data.txt") << fileOf(lines);
    std::ofstream(d + "mcbopomofo-data-plain-bpmf.txt") << fileOf(lines);
    std::ofstream(d + "mcbopomofo-associated-phrases-v2.txt") << fileOf(assoc);
    if (!dict.empty()) std::ofstream(d + "mcbopomofo-dictionary-service.json") << dict;
  }
  static std::vector<std::string> usual() {
    return {"ㄅㄚ 八 -9.01", "ㄅㄚ 巴 -9.52", "ㄆㄚˇ 爬 -9.13", "ㄆㄚˇ 怕 -9.77", "ㄇㄚ 媽 -9.29", "ㄈㄚˋ 法 -9.41",
            "ㄈㄚˋ 髮 -10.03", "ㄅㄚ-ㄆㄚˇ 巴爬 -14.07", "ㄅㄚ-ㄆㄚˇ 霸怕 -15.31", "ㄅㄚ-ㄆㄚˇ-ㄇㄚ 甲乙丙 -23.9",
            "_punctuation_< ， -8.11"};
  }
  static fcitx::Instance* instance() {
    static std::unique_ptr<fcitx::Instance> i;
    if (!i) {
      static char a0[] = "demo", a1[] = "--disable=all";
      static char* argv[] = {a0, a1, nullptr};
      fcitx::Log::setLogRule("*=0");
      i = std::make_unique<fcitx::Instance>(2, argv);
    }
    return i.get();
  }
  static fcitx::InputContextManager& manager() {
    static fcitx::InputContextManager m;
    return m;
  }
  explicit Demo(const std::map<std::string, std::string>& conf = {}, bool plainMode = false) : plain(plainMode) {
    std::filesystem::create_directories(scratchDir() + "/data/fcitx5/mcbopomofo");
    std::string d = scratchDir() + "/config/fcitx5/conf";
    std::filesystem::create_directories(d);
    std::ofstream o(d + "/mcbopomofo.conf");
    for (auto& p : conf) o << p.first << "=" << p.second << "\n";
    o.close();
    engine = std::make_unique<McBopomofo::McBopomofoEngine>(instance());
    ic = std::make_unique<DemoIC>(manager());
    ic->setCapabilityFlags(fcitx::CapabilityFlag::Preedit);
    ic->focusIn();
    activate();
  }
  const fcitx::InputMethodEntry& entry() const {
    static fcitx::InputMethodEntry s("mcbopomofo", "McBopomofo", "zh_TW", "mcbopomofo"), p("mcbopomofo-plain", "Plain", "zh_TW", "mcbopomofo");
    return plain ? p : s;
  }
  void activate() {
    fcitx::InputContextEvent ev(ic.get(), fcitx::EventType::InputContextInputMethodActivated);
    engine->activate(entry(), ev);
  }
  void focusOut() {
    std::string pre = ic->inputPanel().clientPreedit().toStringForCommit();
    fcitx::InputContextEvent ev(ic.get(), fcitx::EventType::InputContextFocusOut);
    engine->deactivate(entry(), ev);
    if (!pre.empty()) ic->commitString(pre);
    ic->inputPanel().reset();
  }
  void switchAway() {
    fcitx::InputContextEvent ev(ic.get(), fcitx::EventType::InputContextSwitchInputMethod);
    engine->deactivate(entry(), ev);
  }
  bool key(KeyS s, fcitx::KeyStates st = NONE, int code = 0) {
    fcitx::KeyEvent ev(ic.get(), fcitx::Key(s, st, code), false);
    engine->keyEvent(entry(), ev);
    return ev.accepted();
  }
  void type(const char* s) {
    for (; *s; ++s) {
      bool up = (*s >= 'A' && *s <= 'Z') || strchr("!@#$%^&*()_+{}|:\"<>?~", *s);
      key((KeyS)*s, up ? SHIFT : NONE, *s == ' ' ? 65 : 0);
    }
  }
  std::string pre() { return ic->inputPanel().clientPreedit().toString(); }
  int caret() { return ic->inputPanel().clientPreedit().cursor(); }
  std::string out() {
    std::string s = ic->out;
    ic->out.clear();
    return s;
  }
  fcitx::CommonCandidateList* list() { return dynamic_cast<fcitx::CommonCandidateList*>(ic->inputPanel().candidateList().get()); }
  std::vector<std::string> cands() {
    std::vector<std::string> v;
    if (auto* l = list())
      for (int i = 0; i < l->totalSize(); ++i) v.push_back(l->candidateFromAll(i).text().toString());
    return v;
  }
};
static int bad = 0;
#define WANT(got, want)                                                              \
  do {                                                                               \
    auto g_ = (got);                                                                 \
    decltype(g_) w_ = (want);                                                        \
    if (!(g_ == w_)) {                                                               \
      printf("line %d: %s is not %s\n", __LINE__, #got, #want);                      \
      bad = 1;                                                                       \
    }                                                                                \
  } while (0)
