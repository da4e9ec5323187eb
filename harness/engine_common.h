// The whole input method engine, driven through fcitx5's engine interface
// with a recording input context.
#ifndef ENGINE_COMMON_H_
#define ENGINE_COMMON_H_
#include <fcitx-config/rawconfig.h>
#include <fcitx-utils/log.h>
#include <fcitx/candidatelist.h>
#include <fcitx/event.h>
#include <fcitx/inputcontext.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputmethodentry.h>
#include <fcitx/inputpanel.h>
#include <fcitx/instance.h>
#include <sys/stat.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <vector>
#include "McBopomofo.h"
#include "mc.h"
#include "util.h"
using mc::Explorer;

// fcitx5 refreshes the candidate window after an event during which the input
// method asked for it; without an event loop the request is recorded here.
static std::set<fcitx::InputContext*> gRefresh;
namespace fcitx {
void InputContext::updateUserInterface(UserInterfaceComponent c, bool) {
  if (c == UserInterfaceComponent::InputPanel) gRefresh.insert(this);
}
}  // namespace fcitx

struct TestIC : fcitx::InputContext {
  std::vector<std::string> commits;
  std::string published;  // the pre-edit as last sent to the client
  std::string panelShown = "/";  // the candidate window as last refreshed
  static std::string text(const fcitx::Text& t) {
    std::string s = std::to_string(t.cursor());
    for (size_t i = 0; i < t.size(); ++i) s += "|" + std::to_string(t.formatAt((int)i).toInteger()) + t.stringAt((int)i);
    return t.toString().empty() ? "" : s;
  }
  std::string panelNow() const {
    const auto& p = inputPanel();
    std::string s = text(p.preedit()) + "/" + text(p.auxDown());
    if (auto l = p.candidateList()) {
      s += "/" + std::to_string(l->cursorIndex());
      for (int i = 0; i < l->size(); ++i) s += "," + l->label(i).toString() + l->candidate(i).text().toString();
    }
    return s;
  }
  explicit TestIC(fcitx::InputContextManager& m) : InputContext(m, "test") { created(); }
  ~TestIC() override {
    gRefresh.erase(this);
    destroy();
  }
  const char* frontend() const override { return "test"; }
  void commitStringImpl(const std::string& s) override { commits.push_back(s); }
  void deleteSurroundingTextImpl(int, unsigned int) override {}
  void forwardKeyImpl(const fcitx::ForwardKeyEvent&) override {}
  void updatePreeditImpl() override { published = text(inputPanel().clientPreedit()); }
};

// What the user sees.
struct View {
  std::string pre;      // pre-edit text
  int caret = -1;       // byte offset
  std::string marked;   // highlighted part
  size_t markAt = 0;    // where it starts
  std::string aux;      // tooltip
  bool panel = false;
  std::vector<std::string> cands;
  int page = 0, pageSize = 0, cursor = -1;  // cursor: global index, -1 = none
  int shown = 0;                            // entries on this page
  std::vector<std::string> labels;          // of this page
  fcitx::CandidateLayoutHint layout{};
  std::string str() const {
    std::string s = "[" + pre + "]@" + std::to_string(caret);
    if (!marked.empty()) s += " marked " + marked + " at " + std::to_string(markAt);
    if (panel) {
      s += " panel";
      for (size_t i = 0; i < cands.size(); ++i) s += ((int)i == cursor ? " >" : " ") + cands[i];
      s += " page " + std::to_string(page);
    }
    return s;
  }
  bool operator==(const View& o) const { return str() == o.str() && aux == o.aux; }
  bool operator!=(const View& o) const { return !(*this == o); }
};

static std::unique_ptr<fcitx::Instance>& fcitxInstance() {
  static std::unique_ptr<fcitx::Instance> inst;
  if (!inst) {
    static char a0[] = "mc", a1[] = "--disable=all", a2[] = "-D";
    static char* argv[] = {a0, a1, nullptr};
    (void)a2;
    fcitx::Log::setLogRule("*=0");
    inst = std::make_unique<fcitx::Instance>(2, argv);
  }
  return inst;
}

using Conf = std::map<std::string, std::string>;

class Eng {
 public:
  std::string confDir;
  std::unique_ptr<McBopomofo::McBopomofoEngine> engine;
  std::unique_ptr<TestIC> ic;
  bool plain = false;
  Conf conf;
  Explorer* ex = nullptr;

  Eng(Explorer& e, const Conf& c, bool plainMode, bool clientPreedit = true) : conf(c), ex(&e) {
    fcitxInstance();
    confDir = e.scratch + "/config/fcitx5/conf";
    static Conf written;
    static bool have = false;
    if (!have || written != c || dirty()) {
      std::filesystem::create_directories(confDir);
      std::ofstream o(confDir + "/mcbopomofo.conf", std::ios::trunc);
      for (auto& p : c) o << p.first << "=" << p.second << "\n";
      written = c;
      have = true;
      dirty() = false;
    }
    engine = std::make_unique<McBopomofo::McBopomofoEngine>(fcitxInstance().get());
    ic = std::make_unique<TestIC>(manager());
    if (clientPreedit) ic->setCapabilityFlags(fcitx::CapabilityFlag::Preedit);
    ic->focusIn();
    activate(plainMode);
  }
  explicit Eng(Explorer& e) : ex(&e) {}  // for another driver
  virtual ~Eng() {
    engine.reset();
    ic.reset();
  }
  // Empties the user's dictionary directory before the next engine starts.
  static void wipeUserFiles(Explorer& e) { std::filesystem::remove_all(e.scratch + "/data/fcitx5/mcbopomofo"); }
  // A manager without an instance: no event loop is involved.
  static fcitx::InputContextManager& manager() {
    static fcitx::InputContextManager m;
    return m;
  }
  static bool& dirty() {
    static bool d = false;
    return d;
  }
  const fcitx::InputMethodEntry& entry() const {
    static fcitx::InputMethodEntry s("mcbopomofo", "McBopomofo", "zh_TW", "mcbopomofo"),
        p("mcbopomofo-plain", "Plain", "zh_TW", "mcbopomofo");
    return plain ? p : s;
  }
  virtual void activate(bool p) {
    plain = p;
    fcitx::InputContextEvent ev(ic.get(), fcitx::EventType::InputContextInputMethodActivated);
    engine->activate(entry(), ev);
  }
  // Focus leaves the input context, as fcitx5's Instance does it: the client
  // pre-edit is committed by the framework and the engine is deactivated. What
  // the input panel holds is the engine's business. (c31 runs the same
  // histories through a real Instance.)
  virtual void focusOut() {
    std::string pre = ic->inputPanel().clientPreedit().toStringForCommit();
    if (!pre.empty()) ic->commitString(pre);
    fcitx::InputContextEvent ev(ic.get(), fcitx::EventType::InputContextFocusOut);
    engine->deactivate(entry(), ev);
  }
  virtual void resetEvent() {
    fcitx::InputContextEvent ev(ic.get(), fcitx::EventType::InputContextReset);
    engine->reset(entry(), ev);
  }
  // What the engine put into the input panel must have been sent out.
  void shown() {
    std::string now = TestIC::text(ic->inputPanel().clientPreedit());
    if (ic->capabilityFlags().test(fcitx::CapabilityFlag::Preedit) && now != ic->published)
      ex->fail("the pre-edit shown is out of date", "the client shows '" + ic->published + "', the input panel has '" + now + "'");
    now = ic->panelNow();
    if (gRefresh.erase(ic.get())) ic->panelShown = now;
    else if (now != ic->panelShown)
      ex->fail("the window shown is out of date", "the window shows '" + ic->panelShown + "', the input panel has '" + now + "'");
  }
  virtual void switchAway() {  // to another input method in the same context
    fcitx::InputContextEvent ev(ic.get(), fcitx::EventType::InputContextSwitchInputMethod);
    engine->deactivate(entry(), ev);
  }
  void configure(const Conf& c) {
    for (auto& p : c) conf[p.first] = p.second;
    fcitx::RawConfig raw;
    for (auto& p : conf) raw.setValueByPath(p.first, p.second);
    engine->setConfig(raw);
    dirty() = true;
  }
  // Returns whether the key was consumed.
  virtual bool key(fcitx::KeySym sym, fcitx::KeyStates st = fcitx::KeyStates(), int code = 0, bool release = false) {
    fcitx::KeyEvent ev(ic.get(), fcitx::Key(sym, st, code), release);
    engine->keyEvent(entry(), ev);
    return ev.accepted();
  }
  std::string takeCommits() {
    std::string s;
    for (auto& c : ic->commits) s += c;
    ic->commits.clear();
    return s;
  }
  View view() {
    shown();
    View v;
    bool client = ic->capabilityFlags().test(fcitx::CapabilityFlag::Preedit);
    const fcitx::Text& t = client ? ic->inputPanel().clientPreedit() : ic->inputPanel().preedit();
    v.pre = t.toString();
    v.caret = t.cursor();
    size_t at = 0;
    for (size_t i = 0; i < t.size(); ++i) {
      if (t.formatAt((int)i).test(fcitx::TextFormatFlag::HighLight) && !t.stringAt((int)i).empty()) {
        if (v.marked.empty()) v.markAt = at;
        v.marked += t.stringAt((int)i);
      }
      at += t.stringAt((int)i).size();
    }
    v.aux = ic->inputPanel().auxDown().toString();
    if (auto l = ic->inputPanel().candidateList()) {
      v.panel = true;
      v.layout = l->layoutHint();
      auto* c = dynamic_cast<fcitx::CommonCandidateList*>(l.get());
      if (c) {
        for (int i = 0; i < c->totalSize(); ++i) v.cands.push_back(c->candidateFromAll(i).text().toString());
        v.page = c->currentPage();
        v.pageSize = c->pageSize();
        v.cursor = c->globalCursorIndex();
      }
      v.shown = l->size();
      for (int i = 0; i < l->size(); ++i) v.labels.push_back(l->label(i).toString());
    }
    return v;
  }
};

static bool utf8Boundary(const std::string& s, size_t at) {
  return at == s.size() || (at < s.size() && ((unsigned char)s[at] & 0xC0) != 0x80);
}
static bool validUtf8(const std::string& s) {
  size_t i = 0;
  while (i < s.size()) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
    if (!n || i + n > s.size()) return false;
    for (size_t k = 1; k < n; ++k)
      if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
    i += n;
  }
  return true;
}
#endif
