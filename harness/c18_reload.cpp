// C18: user dictionary files and when their contents take effect.
#include "loader_common.h"

static const char* kText[3][3] = {
    {"甲 ㄅ\n", "# c\n乙 ㄅ\r\n丙 ㄆ\n甲乙 ㄅ-ㄆ\n", "甲 ㄆ"},
    {"丁 ㄅ\n", "庚 ㄆ\n甲 ㄅ\n戊 ㄅ\n丁 ㄅ\n", "乙 ㄅ"},
    {"丁 己\n", "甲 己\n庚 辛\n", "戊 己"}};

static void body(Explorer& e) {
  installBase(e);
  Dirs d(e);
  std::error_code ec;
  fs::remove_all(d.data, ec);
  fs::create_directories(d.data);
  // Start: nothing, the fcitx directory, the whole directory, or files already there.
  size_t start = e.pick(6);
  if (start == 1) fs::create_directories(d.user);
  if (start == 2) fs::create_directories(d.mc);
  if (start == 3)
    for (int i = 0; i < 3; ++i) put(d.f(i), kText[i][1]), stampFile(d.f(i));
  if (start == 4) put(d.f(0), ""), stampFile(d.f(0));  // an empty user file
  if (start == 5) {  // the files are kept elsewhere and linked here
    fs::create_directories(d.data + "/kept");
    fs::create_directories(d.mc);
    for (int i = 0; i < 3; ++i) {
      put(d.data + "/kept/" + std::to_string(i), kText[i][1]);
      fs::create_symlink(d.data + "/kept/" + std::to_string(i), d.f(i));
      stampFile(d.f(i));
    }
  }
  e.note("start ", start);

  Pairs loaded[3];  // what the last activation (or start) saw
  auto current = [&](int i) {
    bool ok;
    std::string t = slurp(d.f(i), &ok);
    return ok ? pairs(t) : Pairs{};
  };
  auto look = [&](LanguageModelLoader& l, const std::string& what) {
    for (auto& r : kReadings) {
      auto want = expected(r, loaded[0], loaded[1], loaded[2]), got = asked(l, r);
      if (got != want)
        e.fail("candidates do not reflect the files", what + ": " + r + ": " + join(got) + "expected " + join(want));
    }
    e.validated(kReadings.size());
  };
  std::unique_ptr<LanguageModelLoader> l;
  auto startUp = [&] {
    std::string before[3];
    bool had[3];
    for (int i = 0; i < 3; ++i) before[i] = slurp(d.f(i), &had[i]);
    bool dirAt[3];
    for (int i = 0; i < 3; ++i) dirAt[i] = fs::is_directory(d.f(i));
    l = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
    e.transition();
    if (!fs::is_directory(d.mc)) e.fail("user directory not created", d.mc + " is missing after start");
    for (int i = 0; i < 3; ++i) {
      bool has;
      std::string now = slurp(d.f(i), &has);
      if (dirAt[i]) continue;
      if (had[i] && (!has || now != before[i])) e.fail("an existing file was changed", d.f(i));
      if (!had[i] && i < 2 && (!has || now != (i ? kHeadX : kHeadU)))
        e.fail("template not created", d.f(i) + ": '" + now + "'");
      if (!had[i] && i == 2 && has) e.fail("unexpected file created", d.f(i));
    }
    for (int i = 0; i < 3; ++i) loaded[i] = current(i);
    // Give the templates made just now their own times.
    look(*l, "after start");
  };
  startUp();

  size_t depth = e.thorough ? 4 : 3;
  for (size_t step = 0; step < depth; ++step) {
    std::string key = "s";
    for (int i = 0; i < 3; ++i) {
      bool ok;
      key += slurp(d.f(i), &ok) + (ok ? "|f" : fs::is_directory(d.f(i)) ? "|d" : "|-");
      for (auto& p : loaded[i]) key += p.first + p.second + ",";
    }
    key += fs::exists(d.mc) ? "M" : "m";
    e.state(key);
    size_t op = e.pick(3 * 6 + 3);
    std::string what;
    if (op < 18) {
      int i = (int)(op / 6), k = (int)(op % 6);
      const std::string p = d.f(i);
      bool dir = fs::exists(d.mc);
      if (!dir && k != 1) e.prune();
      switch (k) {
        case 0:
        case 1:
          if (fs::is_directory(p)) e.prune();
          if (k == 1) fs::create_directories(d.mc);
          putInPlace(p, kText[i][k]);
          what = "write in place";
          break;
        case 2:
          if (fs::is_directory(p)) e.prune();
          put(p + ".tmp", kText[i][2]);
          fs::rename(p + ".tmp", p);
          what = "replace by rename";
          break;
        case 3:
          if (!fs::is_regular_file(p)) e.prune();
          if (truncate(p.c_str(), 0)) e.prune();
          what = "truncate";
          break;
        case 4:
          if (!fs::exists(p)) e.prune();
          fs::remove_all(p);
          what = "delete";
          break;
        default:  // unreadable: a directory in its place
          if (fs::is_directory(p)) e.prune();
          fs::remove_all(p);
          fs::create_directories(p);
          what = "make unreadable";
      }
      stampFile(p);
      what += " file " + std::to_string(i);
      e.note(what, " (", k, ")");
      e.transition();
      // Not activated yet: whatever was loaded stays in force, and nothing crashes.
      look(*l, what + " without activation");
    } else if (op == 18) {
      if (!fs::exists(d.mc)) e.prune();
      fs::remove_all(d.mc);
      e.note("remove the directory");
      e.transition();
      look(*l, "directory removed without activation");
    } else if (op == 19) {
      e.note("activate");
      l->reloadUserModelsIfNeeded();
      e.transition();
      for (int i = 0; i < 3; ++i) loaded[i] = current(i);
      look(*l, "after activation");
    } else {
      e.note("restart");
      l.reset();
      startUp();
      for (int i = 0; i < 2; ++i)
        if (fs::is_regular_file(d.f(i)) && step + 1 < depth) stampFile(d.f(i));
    }
  }
  l->reloadUserModelsIfNeeded();
  e.note("activate");
  for (int i = 0; i < 3; ++i) loaded[i] = current(i);
  look(*l, "after the final activation");
  l->reloadUserModelsIfNeeded();
  look(*l, "after an activation with nothing changed");
}
int main(int argc, char** argv) { return mc::run(argc, argv, body, 2); }
