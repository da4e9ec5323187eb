// C19: adding user phrases, with every prior content and every short write.
#include "loader_common.h"

static void body(Explorer& e) {
  installBase(e);
  signal(SIGXFSZ, SIG_IGN);
  Dirs d(e);
  std::error_code ec;
  fs::remove_all(d.data, ec);
  static const char* kPrior[] = {
      "",  // the template written by the loader itself
      "甲 ㄅ\n", "甲 ㄅ", "# note", "# note\n甲 ㄅ\n乙 ㄆ", "甲 ㄅ\r\n乙 ㄅ\r\n", "甲 ㄅ\n\n\n", "甲 ㄅ  ", "\n", " ",
      "丙丁 ㄅ-ㄆ\n甲 ㄅ\n乙 ㄆ\n", "absent", "empty"};
  size_t pr = e.pick(sizeof kPrior / sizeof *kPrior);
  std::string prior = kPrior[pr];
  // On a first start any of the directories may be missing.
  size_t have = pr ? 3 : e.pick(4);
  if (have) fs::create_directories(have == 1 ? d.data : have == 2 ? d.user : d.mc);
  if (have < 3) e.note("existing directories: ", have);
  bool absent = prior == "absent";
  if (prior == "empty") put(d.f(0), "");
  else if (!absent && pr) put(d.f(0), prior);
  if (pr && !absent) stampFile(d.f(0));
  std::string slurp0 = slurp(d.f(0));
  e.note("prior content ", mc::quote(prior));

  auto l = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
  auto untouched = [&](const std::string& was) {
    if (slurp(d.f(0)) != was) e.fail("starting changed the file", mc::quote(was) + " -> " + mc::quote(slurp(d.f(0))));
  };
  if (pr && !absent) untouched(slurp0);
  if (absent) {
    fs::remove(d.f(0));
  }
  static const std::pair<const char*, const char*> kAdd[] = {{"子丑", "ㄅ-ㄆ"}, {"寅", "ㄅ"}, {"甲", "ㄅ"}, {"卯辰巳", "ㄅ-ㄆ-ㄅ"}, {"", ""}, {"", ""}, {"𠀋𠀋𠀋𠀋𠀋𠀋", "ㄅ-ㄓㄨㄤˋ-ㄓㄨㄤˊ-ㄓㄨㄤˇ-ㄔㄨㄤˊ-ㄕㄨㄤˇ"}};
  Pairs before = pairs(slurp(d.f(0)));
  size_t n = e.thorough ? 4 : 3;
  for (size_t k = 0; k < n; ++k) {
    // (The long line comes first or not at all.)
    size_t a = e.pick(k ? 6 : 7);
    if (a == 4) {  // restart
      std::string was = slurp(d.f(0));
      l.reset();
      l = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
      if (!absent) untouched(was);
      e.note("restart");
      absent = false;  // the loader writes the template again
      before = pairs(slurp(d.f(0)));
      continue;
    }
    if (a == 5) {  // the user edits the file, dropping the last newline
      if (absent) e.prune();
      std::string t = slurp(d.f(0));
      if (t.empty() || t.back() != '\n') e.prune();
      t.pop_back();
      put(d.f(0), t);
      stampFile(d.f(0));
      e.note("last newline removed");
      before = pairs(t);
      continue;
    }
    std::string phrase = kAdd[a].first, reading = kAdd[a].second;
    std::string old = slurp(d.f(0));
    if (!absent) {
      // Let the loader see an old time first, so that the addition is newer
      // whatever the clock's granularity.
      stampFile(d.f(0));
      l->reloadUserModelsIfNeeded();
    }
    // The write may be cut short after any number of bytes.
    size_t room = phrase.size() + reading.size() + 2 + 1;
    static const size_t kFew[] = {0, 1, 26, 64, 65};
    size_t cut = absent ? 0 : room > 64 ? kFew[e.pick(5)] : e.pick(room + 1);  // 0 = not cut
    struct rlimit lim, was;
    getrlimit(RLIMIT_FSIZE, &was);
    lim = was;
    if (cut) {
      lim.rlim_cur = old.size() + cut - 1;
      setrlimit(RLIMIT_FSIZE, &lim);
    }
    e.note("add ", phrase, " ", reading, cut ? " cut after " + std::to_string(cut - 1) + " bytes" : std::string());
    l->addUserPhrase(reading, phrase);
    setrlimit(RLIMIT_FSIZE, &was);
    e.transition();
    bool there;
    std::string now = slurp(d.f(0), &there);
    e.state(std::to_string(pr) + now + (cut ? "c" : "-"));
    if (absent) {
      if (there) e.fail("file created by an addition", d.f(0));
      continue;
    }
    std::string line = phrase + " " + reading + "\n";
    Pairs after = pairs(now);
    // Nothing that was there is damaged.
    if (now.compare(0, old.size(), old) != 0) e.fail("earlier content changed", mc::quote(old) + " -> " + mc::quote(now));
    for (size_t i = 0; i < before.size(); ++i)
      if (i >= after.size() || after[i] != before[i])
        e.fail("an earlier phrase is damaged", mc::quote(now) + ": phrase " + std::to_string(i) + " was " + before[i].first + " " + before[i].second);
    bool complete = now.size() >= old.size() + line.size() && now.compare(now.size() - line.size(), line.size(), line) == 0;
    if (!cut && !complete) e.fail("the phrase is not in the file", mc::quote(now));
    if (cut && !complete) {
      // The addition failed; everything before still reads back after a restart.
      for (int again = 0; again < 2; ++again) {
        for (auto& p : before) {
          auto v = asked(*l, p.second);
          bool hit = false;
          for (auto& x : v) hit |= x == p.first;
          if (!hit) e.fail("an earlier phrase is lost", p.first + " " + p.second + " after a cut write: " + mc::quote(now));
        }
        l.reset();
        l = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
      }
      e.validated(1);
      return;
    }
    if (after.size() != before.size() + 1 || after.back() != std::make_pair(phrase, reading))
      e.fail("not exactly one phrase added", mc::quote(now));
    if (std::count(now.begin() + (long)old.size(), now.end(), '\n') > (old.empty() || old.back() == '\n' ? 1 : 2))
      e.fail("more than one line added", mc::quote(now));
    for (int again = 0; again < 2; ++again) {
      for (auto& p : after) {
        auto v = asked(*l, p.second);
        auto want = expected(p.second, after, {}, {});
        if (v != want)
          e.fail(again ? "phrases lost by a restart" : "the phrase is not usable at once", p.second + ": " + join(v) + "expected " + join(want));
      }
      e.validated(1);
      if (again || k + 1 < n) break;
      l.reset();
      l = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
    }
    before = after;
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 2); }
