// A small stateless explorer for bounded exhaustive exploration of real code.
//
// A harness body is a function of an Explorer. Every nondeterministic choice
// goes through pick(n); the explorer re-executes the body for every choice
// vector (depth-first, odometer order), so one execution = one path through
// the bounded choice tree. A path is replayed from its choice vector alone.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

struct Prune {};
struct Violation {
  std::string sig, msg;
};

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  h ^= h >> 29;
  return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return hashBytes(s.data(), s.size(), h);
}

class Explorer {
 public:
  bool thorough = false;
  bool verbose = false;  // notes are recorded
  std::string scratch;   // private scratch directory of this process

  // One of 0..n-1.
  size_t pick(size_t n);
  // True if the current point was not already visited by an earlier path.
  bool fresh() const { return freshAlways_ || pos_ > freshFrom_; }
  // Abandon this path (and everything below it).
  [[noreturn]] void prune() { throw Prune{}; }
  // Counters. transition(): one operation of the code under test applied at a
  // fresh point; state(h): a state of the code under test, by canonical hash.
  void transition(uint64_t n = 1) {
    // Points above the sharding depth are executed by every shard; shard 0 counts them.
    if (fresh() && (pos_ >= shardDepth_ || shard_ == 0)) transitions_ += n;
  }
  void evaluations(uint64_t n) { transitions_ += n; }
  void state(uint64_t h) {
    if (states_.size() < 1500000) states_.insert(h);
    else statesCapped_ = true;
  }
  void state(const std::string& s) { state(hashStr(s)); }
  void outcome(const std::string& s) {
    if (outcomes_.size() < 500000) outcomes_.insert(hashStr(s));
  }
  void count(const std::string& name, uint64_t n = 1) { extra_[name] += n; }
  void validated(uint64_t n) { validated_ += n; }
  // Visited-set pruning: returns false when the state was already expanded
  // with at least `remaining` more steps to go (then the caller prunes).
  bool expand(uint64_t h, int remaining) {
    if (!fresh()) return true;
    auto it = seen_.find(h);
    if (it != seen_.end() && it->second >= remaining) return false;
    if (seen_.size() < 8000000) seen_[h] = remaining;
    return true;
  }
  template <typename... A>
  void note(const A&... a) {
    if (!verbose) return;
    std::ostringstream o;
    using expander = int[];
    (void)expander{0, (void(o << a), 0)...};
    notes_.push_back(o.str());
  }
  [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Violation{sig, msg}; }
  void check(bool ok, const std::string& sig, const std::function<std::string()>& msg) {
    if (!ok) fail(sig, msg());
  }
  const std::vector<std::string>& notes() const { return notes_; }

 private:
  friend int run(int, char**, const std::function<void(Explorer&)>&, size_t);
  std::vector<uint32_t> choices_;
  std::vector<uint32_t> arity_;
  size_t pos_ = 0;
  size_t freshFrom_ = 0;
  bool freshAlways_ = true;
  bool replaying_ = false;
  size_t shard_ = 0, nshards_ = 1, shardDepth_ = 2;
  std::vector<uint32_t> lastPrefix_;
  bool havePrefix_ = false;
  uint64_t prefixCount_ = 0;
  bool prefixMine_ = true;
  uint64_t transitions_ = 0, validated_ = 0;
  bool statesCapped_ = false;
  std::unordered_set<uint64_t> states_, outcomes_;
  std::unordered_map<uint64_t, int> seen_;
  std::unordered_map<std::string, uint64_t> extra_;
  std::vector<std::string> notes_;
  void publish();
};

// Runs the exploration (or a replay) as told by the command line.
int run(int argc, char** argv, const std::function<void(Explorer&)>& body, size_t shardDepth = 2);

std::string quote(const std::string& s);  // printable form of arbitrary bytes
// Restart the hang watchdog (call in long enumerations inside one path).
void alive();

}  // namespace mc
#endif
