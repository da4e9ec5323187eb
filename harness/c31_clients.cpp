// C31: several clients (with and without a pre-edit of their own) share the
// input method; each history of keys, focus changes, resets and clients going
// away, against the composition model of the client that has the focus.
#include <fcitx/addonfactory.h>
#include <fcitx/addonloader.h>
#include <fcitx/addonmanager.h>
#include <fcitx/inputmethodgroup.h>
#include <fcitx/inputmethodmanager.h>
#include "engine_vocab.h"
extern "C" fcitx::AddonFactory* fcitx_addon_factory_instance();

struct Client {
  std::unique_ptr<TestIC> ic;  // empty while it has the focus (the engine driver holds it)
  bool preedit;
  std::string name;
};

// The same driver on a real fcitx5 Instance, which dispatches the events. The
// input method is loaded once; every history starts from a reset.
class Real : public Eng {
 public:
  static fcitx::Instance& instance(Explorer& e) {
    static std::unique_ptr<fcitx::Instance> inst;
    static fcitx::StaticAddonRegistry registry;
    if (!inst) {
      std::string d = e.scratch + "/sysdata/fcitx5/";
      std::filesystem::create_directories(d + "addon");
      std::filesystem::create_directories(d + "inputmethod");
      std::ofstream(d + "addon/mcbopomofo.conf") << "[Addon]\nName=McBopomofo\nCategory=InputMethod\nVersion=1\nLibrary=mcbopomofo\nType=StaticLibrary\nOnDemand=False\nConfigurable=True\n";
      for (auto n : {"mcbopomofo", "mcbopomofo-plain"})
        std::ofstream(d + "inputmethod/" + n + ".conf") << "[InputMethod]\nName=" << n << "\nLabel=M\nLangCode=zh_TW\nAddon=mcbopomofo\nConfigurable=True\n";
      static char a0[] = "mc", a1[] = "--disable=all", a2[] = "--enable=mcbopomofo";
      static char* argv[] = {a0, a1, a2, nullptr};
      fcitx::Log::setLogRule("*=0");
      inst = std::make_unique<fcitx::Instance>(3, argv);
      registry["mcbopomofo"] = fcitx_addon_factory_instance();
      inst->addonManager().registerDefaultLoader(&registry);
      inst->initialize();
      auto& m = inst->inputMethodManager();
      auto g = m.currentGroup();
      g.inputMethodList().clear();
      g.inputMethodList().push_back(fcitx::InputMethodGroupItem("mcbopomofo"));
      g.inputMethodList().push_back(fcitx::InputMethodGroupItem("mcbopomofo-plain"));
      g.setDefaultInputMethod("mcbopomofo");
      m.setGroup(g);
    }
    return *inst;
  }
  Real(Explorer& e, bool clientPreedit) : Eng(e), inst(instance(e)) {
    ic = std::make_unique<TestIC>(inst.inputContextManager());
    if (clientPreedit) ic->setCapabilityFlags(fcitx::CapabilityFlag::Preedit);
    ic->focusIn();
    activate(false);
  }
  ~Real() override {
    if (!ic) return;
    ic->reset(fcitx::ResetReason::Client);
    ic->focusOut();
  }
  void activate(bool p) override {
    plain = p;
    std::string want = p ? "mcbopomofo-plain" : "mcbopomofo";
    if (inst.inputMethod(ic.get()) != want) inst.setCurrentInputMethod(ic.get(), want, true);
    if (inst.inputMethod(ic.get()) != want) ex->fail("the input method cannot be selected", want);
  }
  void focusOut() override { ic->focusOut(); }
  void resetEvent() override { ic->reset(fcitx::ResetReason::Client); }
  void switchAway() override { inst.setCurrentInputMethod(ic.get(), plain ? "mcbopomofo" : "mcbopomofo-plain", true); }
  bool key(fcitx::KeySym sym, fcitx::KeyStates st, int code, bool release) override {
    fcitx::KeyEvent ev(ic.get(), fcitx::Key(sym, st, code), release);
    return ic->keyEvent(ev);
  }
  fcitx::Instance& inst;
};

static void body(Explorer& e) {
  static Vocab v = editorVocab();
  static bool installed = false;
  if (!installed) {
    install(e, v);
    installed = true;
  }
  size_t kinds = e.pick(4);  // which clients show the pre-edit themselves
  bool pe[2] = {kinds != 1, kinds >= 2};
  bool plain[2] = {false, kinds == 3};  // the second client may use the plain method
  Opt o;
  o.escClears = e.thorough && e.pick(2);
  bool real = e.pick(2);
  if (real && o.escClears) e.prune();
  Eng::wipeUserFiles(e);
  std::unique_ptr<Eng> driver = real ? std::unique_ptr<Eng>(new Real(e, pe[0])) : std::make_unique<Eng>(e, o.conf(), false, pe[0]);
  Eng& g = *driver;
  auto fresh = [&](bool preedit) {
    auto ic = std::make_unique<TestIC>(real ? Real::instance(e).inputContextManager() : Eng::manager());
    if (preedit) ic->setCapabilityFlags(fcitx::CapabilityFlag::Preedit);
    return ic;
  };
  auto other = fresh(pe[1]);
  bool mine = pe[0], theirs = pe[1];
  auto m = std::make_unique<Model>(v, o);
  std::string what = std::string(real ? "whole fcitx5; " : "") + "first client " + (pe[0] ? "with" : "without") + " pre-edit, second " + (pe[1] ? "with" : "without") + (kinds == 3 ? ", in plain mode; " : "; ");
  size_t self = 0;  // which client has the focus
  bool open = false;  // plain mode: the panel is open
  auto away = [&] {  // nothing happens to a client without the focus
    if (!other->commits.empty()) e.fail("text delivered to a client that does not have the focus", what + ": '" + other->commits[0] + "'");
    auto& p = other->inputPanel();  // its own pre-edit was committed when the focus left
    if (!p.preedit().toString().empty() || p.candidateList() || !p.auxDown().toString().empty())
      e.fail("something is shown in a client that does not have the focus", what);
  };
  auto slots = [&] {
    auto& p = g.ic->inputPanel();
    if (!(mine ? p.preedit() : p.clientPreedit()).toString().empty()) e.fail("the composition is shown where the client does not expect it", what);
  };
  auto press = [&](const Ev& k) {
    if (plain[self]) {  // only typing a syllable and giving it up
      if (k.name != ESC.name) e.prune();
      g.key(k.sym, k.st, k.code);
      e.transition();
      what += k.name + " ";
      if (!g.takeCommits().empty() || g.view().panel || !g.view().pre.empty()) e.fail("giving up in plain mode leaves something", what + g.view().str());
      open = false;
      slots();
      away();
      return;
    }
    if (m->st == Model::MARK && k.name == RET.name) e.prune();  // adds a phrase
    bool exp = m->key(k);
    bool got = g.key(k.sym, k.st, k.code);
    e.transition();
    what += k.name + " ";
    compare(e, g, *m, got, exp, what);
    slots();
    away();
  };
  auto syllable = [&](size_t n) {
    if (!plain[self]) {
      for (auto& k : typed(n)) press(k);
      return;
    }
    if (open) e.prune();
    for (auto& k : typed(n)) {
      if (!g.key(k.sym, k.st, k.code)) e.fail("a key reached the application", what);
      e.transition();
      what += k.name + " ";
      slots();
      away();
    }
    open = true;
    std::vector<std::string> want;
    for (auto& u : v.get(kSyl[n])) want.push_back(u.first);
    if (g.view().cands != want || !g.takeCommits().empty()) e.fail("plain mode does not offer the words of the syllable", what + g.view().str());
  };
  // The composition ends; the client with the focus gets it once or not at all.
  enum { NEVER, ALWAYS, EITHER };
  auto ending = [&](int delivered, const std::function<void()>& happens, bool gone = false) {
    std::string shown = plain[self] ? g.view().pre : m->view().pre, text = m->r.empty() ? "" : m->text();
    happens();
    e.transition();
    e.validated(1);
    std::string got = g.takeCommits(), ctx = what + ": was showing '" + shown + "', delivered '" + got + "'";
    if (delivered == NEVER ? !got.empty() : got != shown && got != text && !(delivered == EITHER && got.empty()))
      e.fail(delivered == NEVER ? "a discarded composition was delivered" : "leaving did not deliver the composition once", ctx);
    away();
    m = std::make_unique<Model>(v, o);
    open = false;
    View z = g.view();
    if (gone && mine) z.pre = "";  // committed; must be gone when the focus is back
    if (!z.pre.empty() || z.panel) e.fail("a composition is left behind in the client", ctx);
  };
  // Without a pre-edit of its own whether the client gets the text is open.
  auto leave = [&] { ending(mine && !plain[self] ? ALWAYS : EITHER, [&] { g.focusOut(); }, true); };
  auto enter = [&] {
    g.ic->focusIn();
    g.activate(plain[self]);
    if (!g.takeCommits().empty()) e.fail("text delivered on entering", what);
    if (!g.view().pre.empty() || g.view().panel) e.fail("a composition of another client is shown", what);
    away();
  };
  enum { KEYS = 11 };
  int depth = (e.thorough ? 4 : 3) + (real ? 1 : 0);
  for (int d = 0; d < depth; ++d) {
    size_t i = e.pick(KEYS + 6);
    switch (i) {
      case 0: case 1:
        syllable(i);
        break;
      case 2: press(charKey('1')); break;  // an unfinished syllable, or a choice
      case 3: press(SPACE); break;
      case 4: press(ESC); break;
      case 5: press(RET); break;
      case 6: press(BS); break;
      case 7: press(LEFT); break;
      case 8: press(SLEFT); break;
      case 9: press(charKey('<')); break;
      case 10: press(DOWN); break;
      case KEYS:  // the other client gets the focus
        what += "[focus] ";
        leave();
        std::swap(g.ic, other);
        std::swap(mine, theirs), self ^= 1;
        enter();
        break;
      case KEYS + 1:  // the client goes away
        what += "[client closed] ";
        if (real) {
          // Without leaving first; whether it still gets the text is open.
          m = std::make_unique<Model>(v, o);
          open = false;
        } else {
          leave();
        }
        g.ic.reset();
        std::swap(g.ic, other);
        std::swap(mine, theirs), self ^= 1;
        other = fresh(theirs);
        enter();
        break;
      case KEYS + 2:
        what += "[reset] ";
        ending(NEVER, [&] { g.resetEvent(); });
        break;
      case KEYS + 3: {
        what += "[out and back] ";
        leave();
        enter();
        break;
      }
      case KEYS + 4: {  // to another input method and back
        what += "[switched] ";
        ending(plain[self] ? EITHER : ALWAYS, [&] { g.switchAway(); });
        enter();
        break;
      }
      case KEYS + 5: {  // number entry shows what is typed in the same place
        if (plain[self] || !m->view().pre.empty() || m->view().panel) e.prune();
        for (char f = '2'; f <= '5'; ++f) {
          what += std::string("[feature ") + f + "] ";
          auto raw = [&](const Ev& k) {
            g.key(k.sym, k.st, k.code);
            e.transition();
            slots();
            away();
          };
          raw(ctrlKey('\\'));
          if (!g.view().panel) e.fail("no menu of features", what);
          raw(charKey(f));
          raw(charKey('1'));
          if (g.view().pre.find('1') == std::string::npos) e.fail("the number being entered is not shown", what + g.view().str());
          raw(ESC);
          if (!g.view().pre.empty() || g.view().panel || !g.takeCommits().empty()) e.fail("a number given up leaves something", what + g.view().str());
        }
        break;
      }
    }
    e.state(std::to_string(kinds) + (mine ? "p" : "n") + g.view().str());
  }
  // Whatever happened: the next composition is only what is typed now.
  leave();
  std::swap(g.ic, other);
  std::swap(mine, theirs), self ^= 1;
  enter();
  what += "[focus] ";
  syllable(1);
  press(plain[self] ? ESC : RET);
  e.outcome(g.view().str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
