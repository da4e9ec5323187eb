#ifndef LOADER_COMMON_H_
#define LOADER_COMMON_H_
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include "LanguageModelLoader.h"
#include "mc.h"
#include "util.h"
using mc::Explorer;
using McBopomofo::LanguageModelLoader;
namespace fs = std::filesystem;

static const char kHeadU[] = "# user phrases\n", kHeadX[] = "# excluded phrases\n";
struct Strings : LanguageModelLoader::LocalizedStrings {
  std::string userPhraseFileHeader() override { return kHeadU; }
  std::string excludedPhraseFileHeader() override { return kHeadX; }
};

// The directories, all inside the private scratch directory.
struct Dirs {
  std::string data, user, mc;
  explicit Dirs(Explorer& e) {
    data = e.scratch + "/data";
    user = data + "/fcitx5";
    mc = user + "/mcbopomofo";
  }
  std::string f(int i) const {
    static const char* n[] = {"/data.txt", "/exclude-phrases.txt", "/phrases-replacement.txt"};
    return mc + n[i];
  }
};
static void put(const std::string& p, const std::string& s) {
  fs::create_directories(fs::path(p).parent_path());
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o << s;
}
static void putInPlace(const std::string& p, const std::string& s) {  // same inode, as an editor that truncates
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  (void)!write(fd, s.data(), s.size());
  close(fd);
}
static std::string slurp(const std::string& p, bool* ok = nullptr) {
  bool file = fs::is_regular_file(p);
  std::ifstream i(p, std::ios::binary);
  if (ok) *ok = file && i.good();
  if (!file) return {};
  return std::string((std::istreambuf_iterator<char>(i)), {});
}
// Distinct modification times, not in increasing order.
static void stampFile(const std::string& p) {
  static uint64_t n = 0;
  ++n;
  struct timespec t[2];
  t[0].tv_sec = t[1].tv_sec = 1600000000 + (time_t)((n * 7919) % 1000003);
  t[0].tv_nsec = t[1].tv_nsec = 5;
  utimensat(AT_FDCWD, p.c_str(), t, 0);
}
static const std::vector<std::string> kReadings = {"ㄅ", "ㄆ", "ㄅ-ㄆ"};
static void installBase(Explorer& e) {
  static bool done = false;
  if (done) return;
  done = true;
  put(e.scratch + "/sysdata/fcitx5/data/mcbopomofo-data.txt",
      "# format org.openvanilla.mcbopomofo.sorted\nㄅ 丁 -1\nㄅ 戊 -2\nㄅ-ㄆ 丁庚 -3\nㄆ 庚 -1\n");
}
static std::vector<std::string> base(const std::string& r) {
  if (r == "ㄅ") return {"丁", "戊"};
  if (r == "ㄆ") return {"庚"};
  if (r == "ㄅ-ㄆ") return {"丁庚"};
  return {};
}
using Pairs = std::vector<std::pair<std::string, std::string>>;
// Line-based reading of well-formed "a b" lines (comments and blanks ignored).
static Pairs pairs(const std::string& text) {
  Pairs r;
  size_t i = 0;
  while (i < text.size()) {
    size_t n = text.find('\n', i);
    if (n == std::string::npos) n = text.size();
    std::string l = text.substr(i, n - i);
    i = n + 1;
    size_t s = l.find_first_not_of(" \t\r");
    if (s == std::string::npos || l[s] == '#') continue;
    size_t a = l.find_first_of(" \t", s);
    if (a == std::string::npos) break;  // malformed: reading stops
    size_t b = l.find_first_not_of(" \t", a);
    if (b == std::string::npos || l[b] == '\r') break;
    size_t z = l.find_last_not_of(" \t\r");
    r.push_back({l.substr(s, a - s), l.substr(b, z - b + 1)});
  }
  return r;
}
static std::vector<std::string> expected(const std::string& r, const Pairs& u, const Pairs& x, const Pairs& rep) {
  std::vector<std::string> v, out;
  for (auto& p : u)
    if (p.second == r) v.push_back(p.first);
  for (auto& b : base(r)) v.push_back(b);
  for (auto& s : v) {
    bool ex = false;
    for (auto& p : x) ex |= p.second == r && p.first == s;
    if (ex) continue;
    std::string t = s;
    for (auto& p : rep)
      if (p.first == s) t = p.second;
    bool dup = false;
    for (auto& o : out) dup |= o == t;
    if (!dup) out.push_back(t);
  }
  return out;
}
static std::vector<std::string> asked(LanguageModelLoader& l, const std::string& r) {
  std::vector<std::string> v;
  for (auto& u : l.getLM()->getUnigrams(r)) v.push_back(u.value());
  if (l.getLM()->hasUnigrams(r) == v.empty()) v.push_back("(hasUnigrams disagrees)");
  return v;
}
static std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + " ";
  return s;
}
#endif
