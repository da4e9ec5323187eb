#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstring>
#include <exception>
#include <typeinfo>

namespace mc {

namespace {
char* g_cur = nullptr;  // shared mapping: the choice vector being executed
constexpr size_t kCurSize = 1 << 16;
volatile uint64_t g_alive = 0;
uint64_t g_lastAlive = 0;
int g_stuck = 0;

void onTimer(int) {
  if (g_alive != g_lastAlive) {
    g_lastAlive = g_alive;
    g_stuck = 0;
    return;
  }
  if (++g_stuck >= 3) {  // no progress for about 30 s of this process's CPU time
    static const char m[] = "HANG: one execution made no progress\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(99);
  }
}

std::string jsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      // Non-ASCII is passed through when the whole text is UTF-8; the runner
      // decodes with errors='replace'.
      if (c < 0x20 || c == 0x7f) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += static_cast<char>(c);
      }
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

std::string vec(const std::vector<uint32_t>& v) {
  std::string r;
  for (uint32_t x : v) {
    if (!r.empty()) r += ' ';
    r += std::to_string(x);
  }
  return r;
}
}  // namespace

void alive() { g_alive = g_alive + 1; }

std::string quote(const std::string& s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '"' || c == '\\') {
      r += '\\';
      r += s[i];
    } else if (c == '\n') {
      r += "\\n";
    } else if (c == '\t') {
      r += "\\t";
    } else if (c < 0x20 || c == 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += s[i];
    }
  }
  return r + "\"";
}

void Explorer::publish() {
  if (!g_cur) return;
  size_t n = choices_.size();
  if (n > kCurSize / 4 - 2) n = kCurSize / 4 - 2;
  uint32_t* w = reinterpret_cast<uint32_t*>(g_cur);
  w[0] = 0xffffffffu;
  if (n) memcpy(w + 1, choices_.data(), n * 4);
  w[0] = static_cast<uint32_t>(n);
}

size_t Explorer::pick(size_t n) {
  if (n == 0) throw Prune{};
  size_t r;
  if (pos_ < choices_.size()) {
    r = choices_[pos_];
    if (r >= n || (!replaying_ && pos_ < arity_.size() && arity_[pos_] != n)) {
      if (replaying_ && r >= n) {
        fprintf(stderr, "replay diverged: choice %zu at point %zu of arity %zu\n", r, pos_, n);
        exit(98);
      }
      if (r >= n || arity_[pos_] != n) {
        fprintf(stderr, "nondeterminism: arity %zu at point %zu differs from the recorded one\n", n, pos_);
        exit(98);
      }
    }
  } else {
    r = 0;
    choices_.push_back(0);
    if (arity_.size() < choices_.size()) arity_.push_back(static_cast<uint32_t>(n));
    arity_[choices_.size() - 1] = static_cast<uint32_t>(n);
    if (g_cur) {
      uint32_t* w = reinterpret_cast<uint32_t*>(g_cur);
      if (choices_.size() < kCurSize / 4 - 2) {
        w[choices_.size()] = 0;
        w[0] = static_cast<uint32_t>(choices_.size());
      }
    }
  }
  ++pos_;
  if (!replaying_ && pos_ == shardDepth_ && nshards_ > 1) {
    std::vector<uint32_t> prefix(choices_.begin(), choices_.begin() + static_cast<ptrdiff_t>(pos_));
    if (!havePrefix_ || prefix != lastPrefix_) {
      lastPrefix_ = prefix;
      havePrefix_ = true;
      prefixMine_ = (prefixCount_ % nshards_) == shard_;
      ++prefixCount_;
    }
    if (!prefixMine_) throw Prune{};
  }
  return r;
}

int run(int argc, char** argv, const std::function<void(Explorer&)>& body, size_t shardDepth) {
  Explorer e;
  e.shardDepth_ = shardDepth;
  std::string out, replay, cur, hashes;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--shard") e.shard_ = strtoul(next().c_str(), nullptr, 10);
    else if (a == "--nshards") e.nshards_ = strtoul(next().c_str(), nullptr, 10);
    else if (a == "--tier") e.thorough = next() == "thorough";
    else if (a == "--out") out = next();
    else if (a == "--cur") cur = next();
    else if (a == "--hashes") hashes = next();
    else if (a == "--scratch") e.scratch = next();
    else if (a == "--replay") { replay = next(); e.replaying_ = true; }
  }
  if (!cur.empty()) {
    int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, kCurSize) == 0) {
      void* p = mmap(nullptr, kCurSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) g_cur = static_cast<char*>(p);
    }
    if (fd >= 0) close(fd);
  }
  struct sigaction sa {};
  sa.sa_handler = onTimer;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval tv {};
  tv.it_interval.tv_sec = 10;
  tv.it_value.tv_sec = 10;
  setitimer(ITIMER_PROF, &tv, nullptr);

  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) return 97;

  if (e.replaying_) {
    std::istringstream in(replay);
    uint32_t v;
    while (in >> v) e.choices_.push_back(v);
    e.verbose = true;
    int rc = 0;
    try {
      body(e);
    } catch (const Prune&) {
    } catch (const Violation& v) {
      fprintf(f, "{\"violation\":%s,\"sig\":%s}\n", jsonStr(v.msg).c_str(), jsonStr(v.sig).c_str());
      rc = 1;
    } catch (const std::exception& x) {
      fprintf(f, "{\"violation\":%s,\"sig\":\"exception\"}\n",
              jsonStr(std::string("unexpected exception ") + typeid(x).name() + ": " + x.what()).c_str());
      rc = 1;
    }
    for (const auto& n : e.notes_) fprintf(f, "{\"note\":%s}\n", jsonStr(n).c_str());
    fclose(f);
    return rc;
  }

  uint64_t executions = 0, violations = 0;
  uint64_t nextSample = 1;
  std::unordered_map<std::string, int> perSig;
  std::vector<std::string> samples;
  while (true) {
    e.pos_ = 0;
    ++g_alive;
    e.verbose = false;
    if (executions + 1 == nextSample) {
      e.verbose = true;
    }
    e.notes_.clear();
    e.publish();
    bool complete = true;
    auto report = [&](const std::string& sig, const std::string& msg) {
      ++violations;
      if (perSig[sig]++ < 2) {
        std::vector<uint32_t> c(e.choices_.begin(), e.choices_.begin() + static_cast<ptrdiff_t>(e.pos_));
        fprintf(f, "{\"violation\":%s,\"sig\":%s,\"choices\":\"%s\"}\n", jsonStr(msg).c_str(), jsonStr(sig).c_str(),
                vec(c).c_str());
        fflush(f);
      }
    };
    try {
      body(e);
    } catch (const Prune&) {
      complete = false;
    } catch (const Violation& v) {
      report(v.sig, v.msg);
    } catch (const std::exception& x) {
      report("exception", std::string("unexpected exception ") + typeid(x).name() + ": " + x.what());
    }
    if (complete) {
      ++executions;
      if (e.verbose && !e.notes_.empty() && samples.size() < 8) {
        std::string s;
        for (const auto& n : e.notes_) s += (s.empty() ? "" : " ; ") + n;
        if (s.size() > 600) s.resize(600);
        samples.push_back(s);
      }
      if (executions >= nextSample) nextSample *= 13;
    }
    if (violations > 200) break;
    // Odometer.
    e.choices_.resize(e.pos_);
    while (!e.choices_.empty() && e.choices_.back() + 1 >= e.arity_[e.choices_.size() - 1]) e.choices_.pop_back();
    if (e.choices_.empty()) break;
    ++e.choices_.back();
    e.arity_.resize(e.choices_.size());
    e.freshAlways_ = false;
    e.freshFrom_ = e.choices_.size() - 1;
  }
  fprintf(f,
          "{\"done\":true,\"executions\":%llu,\"violations\":%llu,\"transitions\":%llu,\"states\":%zu,\"outcomes\":%zu,"
          "\"validated\":%llu,\"states_capped\":%s,\"samples\":[",
          (unsigned long long)executions, (unsigned long long)violations, (unsigned long long)e.transitions_,
          e.states_.size(), e.outcomes_.size(), (unsigned long long)(e.validated_ ? e.validated_ : executions),
          e.statesCapped_ ? "true" : "false");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jsonStr(samples[i]).c_str());
  fprintf(f, "],\"extra\":{");
  bool first = true;
  for (const auto& kv : e.extra_) {
    fprintf(f, "%s%s:%llu", first ? "" : ",", jsonStr(kv.first).c_str(), (unsigned long long)kv.second);
    first = false;
  }
  fprintf(f, "}}\n");
  fclose(f);
  if (!hashes.empty()) {
    FILE* h = fopen(hashes.c_str(), "wb");
    if (h) {
      std::vector<uint64_t> v(e.states_.begin(), e.states_.end());
      fwrite(v.data(), 8, v.size(), h);
      fclose(h);
    }
  }
  return 0;
}

}  // namespace mc
