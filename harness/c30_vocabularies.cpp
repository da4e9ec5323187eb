// C30: which vocabulary an input method converts with, over every history of
// changes to the data files, switches between the two methods and restarts.
#include "engine_vocab.h"

enum Content { A, B, GONE, DAMAGED, HEADLESS, EMPTYF, DIRECTORY, HEADER, CONTENTS };
static const char* kContents[] = {"first", "second", "missing", "damaged header", "no header", "empty", "directory", "header only"};

// Readings 0..2: 0 is in both versions, 1 only in the first, 2 only in the
// second. Every file has words of its own.
static const std::vector<std::string> kWords[2][2][3] = {{{{"甲", "乙"}, {"丙"}, {}}, {{"丁"}, {}, {"戊", "己"}}},
                                                         {{{"庚", "辛"}, {"壬", "癸"}, {}}, {{"子", "丑", "寅"}, {}, {"卯", "辰"}}}};
static std::string fileText(bool plain, Content c) {
  if (c == EMPTYF) return "";
  std::string head = "# format org.openvanilla.mcbopomofo.sorted\n";
  if (c == HEADER) return head;
  if (c == DAMAGED) head[3] = 'F';
  if (c == HEADLESS) head = "";
  Vocab v;
  double s = -9;
  for (int i = 0; i < 3; ++i)
    for (auto& w : kWords[plain][c == B][i]) v.add(kSyl[i], w, s -= 0.37);
  std::string t = v.text();
  return head + t.substr(t.find('\n') + 1);
}
// The words after 甲, 丁, 庚, 子 and the user's 我 in each version of the table.
static const std::vector<std::string> kHeads = {"甲", "丁", "庚", "子"};
static std::string assocText(Content c) {
  if (c == EMPTYF) return "";
  Vocab v;
  for (auto& h : kHeads) {
    v.assoc.push_back({{h, c == B ? "午" : "巳"}, {kSyl[0], kSyl[3]}, -1});
    if (c == B) v.assoc.push_back({{h, "未"}, {kSyl[0], kSyl[3]}, -2});
  }
  std::string t = v.assocText(), head = t.substr(0, t.find('\n') + 1);
  if (c == HEADER) return head;
  if (c == DAMAGED) head[3] = 'F';
  if (c == HEADLESS) head = "";
  return head + t.substr(t.find('\n') + 1);
}
static std::vector<std::string> assocWords(Content c, const std::string& head) {
  if (c == A) return {head + "巳"};
  if (c == B) return {head + "午", head + "未"};
  return {};
}

// One system (or user's own) copy of a data file.
struct Data {
  std::string name, sys, own;
  bool plain = false, assoc = false;
  Content inSys = A, inOwn = GONE;
  std::string text(Content c) const { return assoc ? assocText(c) : fileText(plain, c); }
  void put(const std::string& path, Content c) const {
    std::filesystem::remove_all(path);
    std::filesystem::create_directories(std::filesystem::path(path).parent_path());
    if (c == GONE) return;
    if (c == DIRECTORY) {
      std::filesystem::create_directory(path);
      return;
    }
    // Written elsewhere and moved into place, as a package manager does.
    std::ofstream(path + ".new", std::ios::trunc) << text(c);
    std::filesystem::rename(path + ".new", path);
  }
  // The file the input method finds: the user's own goes before the system's.
  Content now() const { return inOwn != GONE && inOwn != DIRECTORY ? inOwn : inSys; }
};
using Set = std::set<int>;
static const std::vector<std::string> kNothing;
static const std::vector<std::string>& words(bool plain, int c, int syl) { return c == A || c == B ? kWords[plain][c][syl] : kNothing; }

static void body(Explorer& e) {
  std::string sys = e.scratch + "/sysdata/fcitx5/data/", own = e.scratch + "/data/fcitx5/data/";
  Data d[3] = {{"smart data", sys + "mcbopomofo-data.txt", own + "mcbopomofo-data.txt"},
               {"plain data", sys + "mcbopomofo-data-plain-bpmf.txt", own + "mcbopomofo-data-plain-bpmf.txt"},
               {"associated phrases", sys + "mcbopomofo-associated-phrases-v2.txt", own + "mcbopomofo-associated-phrases-v2.txt"}};
  d[1].plain = true;
  d[2].assoc = true;
  for (auto& x : d) {
    x.put(x.sys, A);
    x.put(x.own, GONE);
  }
  std::string userDir = e.scratch + "/data/fcitx5/mcbopomofo";
  std::filesystem::create_directories(userDir);
  std::ofstream(userDir + "/data.txt", std::ios::trunc) << "我 " << kSyl[3] << "\n";
  std::ofstream(userDir + "/exclude-phrases.txt", std::ios::trunc) << "乙 " << kSyl[0] << "\n";
  std::filesystem::remove(userDir + "/phrases-replacement.txt");

  std::string what;
  auto change = [&](Data& x, bool mine, Content c) {
    (mine ? x.inOwn : x.inSys) = c;
    x.put(mine ? x.own : x.sys, c);
    what += std::string("[") + (mine ? "own " : "") + x.name + ": " + kContents[c] + "] ";
  };
  // What is there before the first start.
  size_t before = e.pick(1 + 2 * (CONTENTS - 1));
  if (before) change(d[(before - 1) % 2 ? 2 : 0], false, (Content)(1 + (before - 1) / 2));

  Conf conf = {{"AssociatedPhrasesEnabled", "True"}};
  std::unique_ptr<Eng> g;
  bool plain = e.pick(2);
  Set in, assoc;  // what the vocabulary and the table may be now
  // Probing depends only on these and on the mode.
  auto load = [&](bool p) { in = {d[p].now()}; };
  auto start = [&] {
    g.reset();
    load(plain);
    assoc = {d[2].now()};
    g = std::make_unique<Eng>(e, conf, plain);
    what += std::string("start ") + (plain ? "plain. " : "smart. ");
  };
  auto press = [&](const Ev& k) { return g->key(k.sym, k.st, k.code); };
  auto join = [](const std::vector<std::string>& l) {
    std::string s;
    for (auto& x : l) s += x + " ";
    return s;
  };
  auto probe = [&] {
    for (int syl = 0; syl < 4; ++syl) {
      g->takeCommits();
      for (auto& k : typed(syl))
        if (!press(k)) e.fail("a key of a syllable reached the application", what);
      e.transition();
      View v = g->view();
      // Words offered for the syllable, best first.
      std::vector<std::string> got;
      bool single = false;
      if (plain) {
        got = v.cands;
        std::string done = g->takeCommits();
        // A single word needs no choice.
        if (!done.empty()) got = {done};
        single = !done.empty();
      } else if (!v.pre.empty()) {
        press(SPACE);
        got = g->view().cands;
        press(ESC);
        if (got.empty() || got[0] != v.pre) e.fail("the conversion is not the best word", what + ": " + v.pre + " offered " + join(got));
        if (g->view().pre != v.pre) e.fail("a cancelled panel changes the composition", what);
      }
      bool ok = false;
      Set left;
      for (int c : in) {
        std::vector<std::string> want = syl == 3 ? std::vector<std::string>{"我"} : words(plain, c, syl);
        want.erase(std::remove(want.begin(), want.end(), "乙"), want.end());  // the user's exclusion
        if (got == want) {
          ok = true;
          left.insert(c);
        }
      }
      if (plain && syl == 3) ok = true, left = in;  // whether user phrases count in plain mode is open
      if (!ok) {
        std::string exp;
        for (int c : in) exp += std::string(kContents[c]) + " ";
        bool other = false;
        for (int c : {A, B})
          if (syl < 3 && got == words(!plain, c, syl)) other = true;
        e.fail(other && !got.empty() ? "words of the other input method" : got.empty() ? "words are missing" : "words of a file that is not in force",
               what + ": " + kSyl[syl] + " gives " + join(got) + "; in force: " + exp);
      }
      in = left;
      // Associated phrases of the first word.
      if (syl == 0 && !got.empty()) {
        std::string head = got[0];
        std::vector<std::string> offered;
        if (plain) {
          if (!single) {
            press(charKey('1'));
            if (g->takeCommits() != head) e.fail("the wrong word was delivered", what);
          }
          for (auto& c : g->view().cands) offered.push_back(head + c);
        } else {
          press(SRET);
          View a = g->view();
          for (auto& c : a.cands) offered.push_back(c.find(head) == 0 ? c : head + c);
        }
        e.transition();
        Set may;
        for (int c : assoc)
          if (assocWords((Content)c, head) == offered) may.insert(c);
        if (may.empty()) e.fail("associated phrases differ from the table in force", what + ": after " + head + ": " + join(offered));
        assoc = may;
      }
      for (int i = 0; i < 3; ++i) press(ESC);
      if (!plain) {
        press(RET);
      }
      g->takeCommits();
      View z = g->view();
      if (!z.pre.empty() || z.panel) g->resetEvent();
      e.outcome(std::to_string(plain) + std::to_string(syl) + join(got));
    }
  };
  start();
  probe();
  int depth = e.thorough || !before ? 3 : 2;  // the last step changes no file
  static const std::vector<Content> sysC = {A, B, GONE, DAMAGED, HEADLESS, EMPTYF, DIRECTORY, HEADER}, ownC = {GONE, B, DAMAGED}, assocC = {A, B, GONE, DAMAGED, EMPTYF};
  for (int i = 0; i < depth; ++i) {
    // A step: nothing or a change of one file, then a switch, a restart or nothing.
    size_t n = 1 + 2 * sysC.size() + 2 * ownC.size() + assocC.size() + 1;
    size_t k = i + 1 == depth ? 0 : e.pick(n);
    bool changed = k > 0;
    if (k) {
      --k;
      Data* x;
      bool mine = false;
      Content c;
      if (k < 2 * sysC.size()) x = &d[k % 2], c = sysC[k / 2];
      else if ((k -= 2 * sysC.size()) < 2 * ownC.size()) x = &d[k % 2], c = ownC[k / 2], mine = true;
      else if ((k -= 2 * ownC.size()) < assocC.size()) x = &d[2], c = assocC[k];
      else x = &d[2], c = B, mine = true;
      if ((mine ? x->inOwn : x->inSys) == c) e.prune();
      change(*x, mine, c);
      if (x->assoc) assoc.insert(x->now());
      else if (x->plain == plain) in.insert(x->now());
    }
    if (changed && e.pick(2)) continue;
    switch (e.pick(3) + 1) {
      case 1:  // away and back to the same method
        g->switchAway();
        g->activate(plain);
        what += "again. ";
        in.insert(d[plain].now());
        break;
      case 2:
        g->switchAway();
        plain = !plain;
        g->activate(plain);
        what += plain ? "to plain. " : "to smart. ";
        load(plain);
        break;
      case 3:
        start();
        break;
    }
    std::string st = std::to_string(plain);
    for (auto& x : d) st += " " + std::to_string(x.inSys) + std::to_string(x.inOwn);
    for (int c : in) st += "i" + std::to_string(c);
    for (int c : assoc) st += "a" + std::to_string(c);
    e.state(st);
    probe();
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
