// KeyHandler driven directly (below the fcitx5 engine), so that the error
// indications and the texts it asks for can be observed.
#ifndef KEYHANDLER_COMMON_H_
#define KEYHANDLER_COMMON_H_
#include "KeyHandler.h"
#include "McBopomofoLM.h"
#include "ParselessPhraseDB.h"
#include "LanguageModelLoader.h"
#include "engine_model.h"

struct TestAdder : McBopomofo::UserPhraseAdder {
  std::vector<std::pair<std::string, std::string>> added;
  void addUserPhrase(const std::string_view& reading, const std::string_view& phrase) override {
    added.push_back({std::string(reading), std::string(phrase)});
  }
};
struct TestStrings : McBopomofo::KeyHandler::LocalizedStrings {
  std::string cursorIsBetweenSyllables(const std::string& a, const std::string& b) override { return "between " + a + " " + b; }
  std::string syllablesRequired(size_t n) override { return "required " + std::to_string(n); }
  std::string syllablesMaximum(size_t n) override { return "maximum " + std::to_string(n); }
  std::string phraseAlreadyExists() override { return "exists"; }
  std::string pressEnterToAddThePhrase() override { return "enter"; }
  std::string markedWithSyllablesAndStatus(const std::string& m, const std::string& r, const std::string& s) override {
    return m + "|" + r + "|" + s;
  }
};
static McBopomofo::Key toKey(const Ev& k) {
  using McBopomofo::Key;
  bool ctrl = (bool)(k.st & fcitx::KeyState::Ctrl), shift = (bool)(k.st & fcitx::KeyState::Shift);
  if (k.c && !ctrl && !same(k, SPACE)) return Key::asciiKey(k.c, false, false);
  switch (k.sym) {
    case FcitxKey_Left: return Key::namedKey(Key::KeyName::LEFT, shift, ctrl);
    case FcitxKey_Right: return Key::namedKey(Key::KeyName::RIGHT, shift, ctrl);
    case FcitxKey_Home: return Key::namedKey(Key::KeyName::HOME, shift, ctrl);
    case FcitxKey_End: return Key::namedKey(Key::KeyName::END, shift, ctrl);
    case FcitxKey_Up: return Key::namedKey(Key::KeyName::UP, shift, ctrl);
    case FcitxKey_Down: return Key::namedKey(Key::KeyName::DOWN, shift, ctrl);
    case FcitxKey_BackSpace: return Key::asciiKey(Key::BACKSPACE, shift, ctrl);
    case FcitxKey_Delete: return Key::asciiKey(Key::DELETE, shift, ctrl, true);
    case FcitxKey_Escape: return Key::asciiKey(Key::ESC, shift, ctrl);
    case FcitxKey_Return: return Key::asciiKey(Key::RETURN, shift, ctrl);
    case FcitxKey_space: return Key::asciiKey(Key::SPACE, shift, ctrl);
    case FcitxKey_Tab:
    case FcitxKey_ISO_Left_Tab: return Key::asciiKey(Key::TAB, shift, ctrl);
    default: return Key{};
  }
}

class KH {
 public:
  std::shared_ptr<McBopomofo::McBopomofoLM> lm = std::make_shared<McBopomofo::McBopomofoLM>();
  std::shared_ptr<TestAdder> adder = std::make_shared<TestAdder>();
  std::string data;
  std::unique_ptr<McBopomofo::KeyHandler> h;
  std::unique_ptr<McBopomofo::InputState> state = std::make_unique<McBopomofo::InputStates::Empty>();
  std::string commits;
  int errors = 0, phraseNotes = 0;
  bool shown = false;  // a pre-edit is displayed
  std::string pre;
  size_t caret = 0;
  std::string tooltip;

  KH(const Vocab& v, const Opt& o) {
    data = v.text();
    lm->loadLanguageModel(std::make_unique<McBopomofo::ParselessPhraseDB>(data.data(), data.size(), true));
    h = std::make_unique<McBopomofo::KeyHandler>(lm, adder, std::make_unique<TestStrings>());
    h->setSelectPhraseAfterCursorAsCandidate(o.after);
    h->setMoveCursorAfterSelection(o.move);
    h->setEscKeyClearsEntireComposingBuffer(o.escClears);
    h->setPutLowercaseLettersToComposingBuffer(o.lower);
    h->setOnAddNewPhrase([this](const std::string&) { ++phraseNotes; });
  }
  void enter(std::unique_ptr<McBopomofo::InputState> next) {
    using namespace McBopomofo::InputStates;
    auto prev = std::move(state);
    state = std::move(next);
    auto* ne = dynamic_cast<NotEmpty*>(state.get());
    if (ne) {
      pre = ne->composingBuffer;
      caret = ne->cursorIndex;
      tooltip = ne->tooltip;
      return;
    }
    if (auto* c = dynamic_cast<Committing*>(state.get())) commits += c->text;
    else if (dynamic_cast<Empty*>(state.get()))
      if (auto* p = dynamic_cast<NotEmpty*>(prev.get())) commits += p->composingBuffer;
    pre.clear();
    caret = 0;
    tooltip.clear();
    if (dynamic_cast<EmptyIgnoringPrevious*>(state.get())) state = std::make_unique<Empty>();
  }
  bool key(const Ev& k) {
    errors = 0;
    return h->handle(
        toKey(k), state.get(), [this](std::unique_ptr<McBopomofo::InputState> n) { enter(std::move(n)); }, [this] { ++errors; });
  }
  bool choosing() { return dynamic_cast<McBopomofo::InputStates::ChoosingCandidate*>(state.get()) != nullptr; }
  McBopomofo::InputStates::Marking* marking() { return dynamic_cast<McBopomofo::InputStates::Marking*>(state.get()); }
};
#endif
