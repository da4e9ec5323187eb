// C27: MemoryMappedFile over all open/close/move histories with every system call failing in turn.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <new>

#include "MemoryMappedFile.h"
#include "mc.h"

using McBopomofo::MemoryMappedFile;

// Fault injection at the link-level seam of the system calls the code uses (-Wl,--wrap).
static int g_failAt = 0;  // fail the n-th wrapped call from now (1-based), 0 = none
static int g_calls = 0;
static bool trip() { return g_failAt && ++g_calls == g_failAt; }
extern "C" {
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int f, ...) {
  if (trip()) {
    errno = EMFILE;
    return -1;
  }
  return __real_open(p, f, 0600);
}
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* s) {
  if (trip()) {
    errno = EIO;
    return -1;
  }
  return __real_fstat(fd, s);
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* s) {
  if (trip()) {
    errno = EIO;
    return -1;
  }
  return __real_stat(p, s);
}
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  if (trip()) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  return __real_mmap(a, n, p, f, fd, o);
}
}

static int openFds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static int mapsOf(const std::string& dir) {
  std::ifstream in("/proc/self/maps");
  std::string l;
  int n = 0;
  while (std::getline(in, l))
    if (l.find(dir + "/mm-") != std::string::npos) ++n;
  return n;
}

static void body(mc::Explorer& e) {
  static bool made = false;
  std::string dir = e.scratch;
  std::string path[5] = {dir + "/mm-small", dir + "/mm-page", dir + "/mm-empty", dir + "/mm-missing", dir + "/mm-dir"};
  static std::string content[2] = {"hello\n", std::string(4096, 'p') + "q"};
  if (!made) {
    made = true;
    for (int i = 0; i < 2; ++i) std::ofstream(path[i], std::ios::binary) << content[i];
    std::ofstream(path[2]).flush();
    mkdir(path[4].c_str(), 0700);
  }
  struct Ref {
    bool open = false;
    int kind = 0;
  };
  static int baseFds = -1;
  if (baseFds < 0) baseFds = openFds();
  MemoryMappedFile* a[2] = {new MemoryMappedFile(), new MemoryMappedFile()};
  struct Cleanup {
    MemoryMappedFile** a;
    ~Cleanup() {
      delete a[0];
      delete a[1];
    }
  };
  Ref ref[2];
  int depth = e.thorough ? 5 : 4;
  bool faulted = false;
  {
    Cleanup c{a};
    for (int d = 0; d < depth; ++d) {
      size_t op = e.pick(5 + 4);
      size_t o = d == 0 ? 0 : e.pick(2);
      std::string what;
      if (op < 5) {
        // Fault: at most one per history.
        size_t fault = faulted ? 0 : e.pick(4);
        if (fault) faulted = true;
        g_calls = 0;
        g_failAt = static_cast<int>(fault);
        bool got = a[o]->open(path[op].c_str());
        bool tripped = g_failAt && g_calls >= g_failAt;
        g_failAt = 0;
        if (fault && !tripped) e.prune();  // the call was not reached: same as no fault
        what = "open " + path[op].substr(dir.size() + 1) + (fault ? " with failing call " + std::to_string(fault) : "");
        e.note("object ", o, " ", what, " -> ", got);
        if (ref[o].open) {
          if (got) e.fail("an open object was opened again", what);
        } else if (op < 2 && !fault) {
          if (!got) e.fail("a readable file cannot be opened", what);
          ref[o] = {true, static_cast<int>(op)};
        } else {
          if (got) e.fail("opening reports success although nothing is mapped", what);
        }
      } else if (op == 5) {
        a[o]->close();
        ref[o].open = false;
        what = "close";
        e.note("object ", o, " close");
      } else if (op == 6) {
        *a[o] = std::move(*a[1 - o]);
        ref[o] = ref[1 - o];
        ref[1 - o].open = false;
        what = "move-assign";
        e.note("object ", o, " = move(other)");
      } else if (op == 7) {
        auto* n = new MemoryMappedFile(std::move(*a[o]));
        if (a[o]->data() != nullptr || a[o]->length() != 0) {
          delete n;
          e.fail("a moved-from object still exposes something", "length " + std::to_string(a[o]->length()));
        }
        delete a[o];
        a[o] = n;
        what = "move-construct";
        e.note("object ", o, " move-constructed");
      } else {
        delete a[o];
        a[o] = new MemoryMappedFile();
        ref[o].open = false;
        what = "destroy";
        e.note("object ", o, " destroyed");
      }
      e.transition();
      int want = 0;
      std::string key;
      for (int i = 0; i < 2; ++i) {
        std::string ctx = "object " + std::to_string(i) + " after " + what;
        if (ref[i].open) {
          ++want;
          const std::string& t = content[ref[i].kind];
          if (a[i]->data() == nullptr || a[i]->length() != t.size() || std::string(a[i]->data(), a[i]->length()) != t)
            e.fail("an open object does not expose the file's bytes", ctx);
          key += std::to_string(ref[i].kind);
        } else {
          if (a[i]->data() != nullptr) e.fail("a closed object exposes data", ctx);
          if (a[i]->length() != 0) e.fail("a closed object has a length", ctx);
          key += "-";
        }
      }
      int fds = openFds() - baseFds, maps = mapsOf(dir);
      if (fds > want) e.fail("a file handle is leaked", what + ": " + std::to_string(fds));
      if (maps != want) e.fail(maps > want ? "a mapping is leaked" : "a mapping is lost", what);
      e.state(key);
      e.outcome(key + what);
    }
  }
  if (openFds() != baseFds || mapsOf(dir) != 0) e.fail("something stays open after destruction", "");
}

int main(int argc, char** argv) { return mc::run(argc, argv, body, 3); }
