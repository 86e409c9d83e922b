#include "pbt.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <thread>
#include <typeinfo>
#include <cxxabi.h>
#include <unordered_set>

namespace pbt {
namespace {
double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
}  // namespace

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a ^ (b * 0x9e3779b97f4a7c15ULL + 0x7f4a7c15ULL + (a << 6) + (a >> 2));
  return splitmix(x);
}
uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

// ---- Src -----------------------------------------------------------------------------------------------------------
// choices of the running case are mirrored here so that they survive a crash of a forked child
struct Shared {
  volatile uint64_t nChoices;
  uint64_t choices[1 << 18];
  volatile int status;  // 0 running, 1 ok, 2 discard, 3 fail
  char msg[1 << 14];
};
static Shared* gShared = nullptr;

Src::Src(uint64_t seed) {
  for (auto& v : s_) v = splitmix(seed);
}
Src::Src(std::vector<uint64_t> replay) : replay_(true), in_(std::move(replay)) { s_[0] = s_[1] = s_[2] = s_[3] = 1; }
uint64_t Src::next() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  const uint64_t r = rotl(s_[1] * 5, 7) * 9;
  const uint64_t t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return r;
}
uint64_t Src::below(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t v = 0;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0;
    ++pos_;
    if (v >= n) v = n - 1;
  } else {
    v = n == 1 ? 0 : next() % n;
  }
  if (rec_.size() > 200000) throw Discard{};
  rec_.push_back(v);
  if (gShared != nullptr && rec_.size() < (1 << 18)) {
    gShared->choices[rec_.size() - 1] = v;
    gShared->nChoices = rec_.size();
  }
  return v;
}
int64_t Src::range(int64_t lo, int64_t hi) {
  if (lo > hi) hi = lo;
  const uint64_t n = uint64_t(hi) - uint64_t(lo) + 1;
  const uint64_t v = below(n);
  if (lo >= 0 || hi < 0) return int64_t(uint64_t(lo) + v);
  // zigzag around zero while both sides last
  const uint64_t neg = uint64_t(-(lo + 1)) + 1, pos = uint64_t(hi);
  const uint64_t both = std::min(neg, pos);
  if (v <= 2 * both) return (v % 2 == 1) ? int64_t((v + 1) / 2) : -int64_t(v / 2);
  const uint64_t rest = v - both;
  return pos > neg ? int64_t(rest) : -int64_t(rest);
}
size_t Src::size(size_t lo, size_t hi) {
  // half of the cases within the lower third
  if (hi - lo >= 6 && below(2) == 0) return size_t(range(int64_t(lo), int64_t(lo + (hi - lo) / 3)));
  return size_t(range(int64_t(lo), int64_t(hi)));
}
double Src::grid(double lo, double hi, double step) {
  const auto n = int64_t(std::llround((hi - lo) / step));
  if (lo < 0 && hi > 0) {
    const auto l = int64_t(std::llround(lo / step));
    return double(range(l, l + n)) * step;
  }
  return lo + double(range(0, n)) * step;
}
double Src::real(double lo, double hi) {
  const double f = double(below(1ULL << 30)) / double(1ULL << 30);
  return lo + (hi - lo) * f;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
  unsigned sum = 0;
  for (auto x : w) sum += x;
  auto v = below(sum);
  size_t i = 0;
  for (auto x : w) {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return 0;
}

// ---- running -------------------------------------------------------------------------------------------------------
namespace {
enum class Res { Ok, Discarded, Failed, Crashed, Hung };
struct Outcome {
  Res res{Res::Ok};
  std::string msg;
  std::vector<uint64_t> choices;
  std::string desc;
};

std::string demangle(const char* n) {
  int st = 0;
  char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string s = d != nullptr ? d : n;
  free(d);
  return s;
}

Outcome runInProcess(const Prop& p, Case& c) {
  Outcome o;
  try {
    p.fn(c);
  } catch (const Fail& f) {
    o.res = Res::Failed;
    o.msg = f.msg;
  } catch (const Discard&) {
    o.res = Res::Discarded;
  } catch (const std::exception& e) {
    o.res = Res::Failed;
    o.msg = "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what();
  } catch (...) {
    o.res = Res::Failed;
    o.msg = "unexpected exception of unknown type";
  }
  return o;
}

std::string gTmp;

std::string readFile(const std::string& f, size_t maxTail = 6000) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  auto s = ss.str();
  if (s.size() > maxTail) s = s.substr(0, maxTail);
  return s;
}

//! Executes one case in a forked child. gen: seed or choices.
Outcome runForked(const Prop& p, const uint64_t* seed, const std::vector<uint64_t>* choices, double timeout,
                  bool describe) {
  std::string errFile = gTmp + "/err." + std::to_string(getpid());
  std::string descFile = gTmp + "/desc." + std::to_string(getpid());
  gShared->nChoices = 0;
  gShared->status = 0;
  gShared->msg[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    Src src = seed != nullptr ? Src(*seed) : Src(*choices);
    Case c(src, describe);
    auto o = runInProcess(p, c);
    snprintf(gShared->msg, sizeof(gShared->msg), "%s", o.msg.c_str());
    if (describe) {
      std::ofstream(descFile) << c.desc.str();
    }
    gShared->status = o.res == Res::Ok ? 1 : o.res == Res::Discarded ? 2 : 3;
    _exit(0);
  }
  const double t0 = now();
  int st = 0;
  Outcome o;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      o.res = Res::Hung;
      o.msg = "no result after " + std::to_string(int(timeout)) + " s";
      break;
    }
    usleep(now() - t0 < 0.05 ? 200 : 3000);
  }
  o.choices.assign(gShared->choices, gShared->choices + std::min<uint64_t>(uint64_t(gShared->nChoices), uint64_t(1) << 18));
  if (o.res != Res::Hung) {
    if (gShared->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      o.res = Res::Ok;
    } else if (gShared->status == 2) {
      o.res = Res::Discarded;
    } else if (gShared->status == 3) {
      o.res = Res::Failed;
      o.msg = gShared->msg;
    } else {
      o.res = Res::Crashed;
      o.msg = "crash (" +
              (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) +
              "): " + readFile(errFile);
    }
  }
  if (describe) o.desc = readFile(descFile, 20000);
  unlink(errFile.c_str());
  unlink(descFile.c_str());
  return o;
}

bool bad(Res r) { return r == Res::Failed || r == Res::Crashed || r == Res::Hung; }

struct Slot {
  volatile int prop;
  volatile long idx;
  volatile double started;
  volatile int state;  // 0 running, 1 finished, 2 failed at (prop, idx)
  volatile long done;
  char msg[2048];
};

std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    switch (ch) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\r': o += "\\r"; break;
      case '\t': o += "\\t"; break;
      default:
        if (ch < 0x20 || ch >= 0x7f) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", ch);
          o += b;
        } else {
          o += char(ch);
        }
    }
  }
  return o;
}

uint64_t caseSeed(uint64_t seed, const Suite& s, const Prop& p, long idx) {
  return mix(mix(mix(seed, hashStr(s.property)), hashStr(p.name)), uint64_t(idx));
}

std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, Res kind, double budget, double caseTimeout,
                             long& attempts) {
  const double t0 = now();
  auto left = [&] { return now() - t0 < budget && attempts < 6000; };
  auto trial = [&](std::vector<uint64_t> cand) {
    if (!left()) return false;
    ++attempts;
    auto o = runForked(p, nullptr, &cand, std::min(caseTimeout, 20.), false);
    bool ok = kind == Res::Hung ? o.res == Res::Hung : (o.res == Res::Failed || o.res == Res::Crashed);
    if (!ok) return false;
    auto rec = o.choices;
    while (!rec.empty() && rec.back() == 0) rec.pop_back();
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (rec.size() > cand.size()) rec = cand;
    auto sum = [](const std::vector<uint64_t>& v) {
      long double s = 0;
      for (auto x : v) s += (long double)x;
      return s;
    };
    if (rec.size() < best.size() || (rec.size() == best.size() && sum(rec) < sum(best))) {
      best = rec;
      return true;
    }
    return false;
  };
  if (kind == Res::Hung) return best;
  bool improved = true;
  while (improved && left()) {
    improved = false;
    // truncate
    for (size_t keep = best.size() / 2; keep + 1 < best.size() && left(); keep += std::max<size_t>(1, (best.size() - keep) / 2)) {
      if (trial({best.begin(), best.begin() + long(keep)})) {
        improved = true;
        keep = best.size() / 2;
      }
    }
    // delete chunks
    for (size_t k : {64, 32, 16, 8, 5, 4, 3, 2, 1}) {
      for (size_t i = best.size() >= k ? best.size() - k + 1 : 0; i-- > 0 && left();) {
        if (i + k > best.size()) continue;
        auto cand = best;
        cand.erase(cand.begin() + long(i), cand.begin() + long(i + k));
        if (trial(cand)) {
          improved = true;
          continue;
        }
        if (i > 0 && best[i - 1] > 0) {  // maybe a length in front of it
          cand = best;
          cand.erase(cand.begin() + long(i), cand.begin() + long(i + k));
          cand[i - 1]--;
          improved |= trial(cand);
        }
      }
    }
    // zero chunks, then single values
    for (size_t k : {16, 4}) {
      for (size_t i = 0; i < best.size() && left(); i += k) {
        auto cand = best;
        bool any = false;
        for (size_t j = i; j < std::min(i + k, best.size()); ++j) {
          any |= cand[j] != 0;
          cand[j] = 0;
        }
        if (any) improved |= trial(cand);
      }
    }
    for (size_t i = 0; i < best.size() && left(); ++i) {
      if (best[i] == 0) continue;
      auto cand = best;
      cand[i] = 0;
      if (trial(cand)) {
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (lo + 1 < hi && left() && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        cand = best;
        cand[i] = mid;
        if (trial(cand)) {
          improved = true;
          hi = mid;
        } else {
          lo = mid;
        }
      }
    }
  }
  return best;
}

struct Totals {
  uint64_t evals{0}, discards{0}, comparisons{0};
  std::unordered_set<uint64_t> fps;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};
}  // namespace

int runMain(const Suite& suite, int argc, char** argv) {
  std::string tier = "quick", evidence, replayDir = "replay", replayFile, only, knownFile;
  uint64_t seed = 1;
  double scale = 1, budget = 0;
  unsigned workers = suite.workers != 0 ? suite.workers : std::max(1u, std::min(8u, std::thread::hardware_concurrency()));
  if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
  if (const char* s = getenv("VERIF_TIER")) tier = s;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay-dir") replayDir = val();
    else if (a == "--replay") replayFile = val();
    else if (a == "--only") only = val();
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--known") knownFile = val();
    else if (a == "--workers") workers = unsigned(atoi(val().c_str()));
  }
  // Same address space layout in every run: pointer-keyed hash orders repeat.
  if (getenv("PBT_NOASLR") == nullptr) {
    setenv("PBT_NOASLR", "1", 1);
    int old = personality(0xffffffff);
    if (old != -1 && personality(unsigned(old) | ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  if (budget <= 0) budget = tier == "thorough" ? 3000 : 420;
  const double t0 = now();
  char tmpl[] = "/tmp/pbt.XXXXXX";
  gTmp = mkdtemp(tmpl);
  setenv("PBT_TMP", gTmp.c_str(), 1);
  gShared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto cleanup = [&] {
    std::string cmd = "rm -rf -- '" + gTmp + "'";
    if (gTmp.rfind("/tmp/pbt.", 0) == 0 && system(cmd.c_str()) != 0) std::cerr << "could not remove " << gTmp << "\n";
  };
  auto findProp = [&](const std::string& n) -> const Prop* {
    for (auto& p : suite.props)
      if (p.name == n) return &p;
    return nullptr;
  };

  if (!replayFile.empty()) {
    std::ifstream in(replayFile);
    std::string line, pname;
    std::vector<uint64_t> choices;
    while (std::getline(in, line)) {
      if (line.rfind("prop ", 0) == 0) pname = line.substr(5);
      if (line.rfind("choices ", 0) == 0) {
        std::istringstream ss(line.substr(8));
        uint64_t v;
        while (ss >> v) choices.push_back(v);
      }
    }
    const Prop* p = findProp(pname);
    if (p == nullptr) {
      std::cout << "unknown sub-check " << pname << "\n";
      cleanup();
      return 2;
    }
    auto o = runForked(*p, nullptr, &choices, 120, true);
    std::cout << o.desc << "\n" << (bad(o.res) ? "FAILS: " + o.msg : std::string("passes")) << "\n";
    if (bad(o.res)) std::cout << "VIOLATION property=" << suite.property << " replay=" << replayFile << "\n";
    cleanup();
    return bad(o.res) ? 1 : 0;
  }

  std::vector<const Prop*> props;
  for (auto& p : suite.props)
    if (only.empty() || p.name == only) props.push_back(&p);
  auto casesOf = [&](const Prop& p) { return std::max(1L, long(double(tier == "thorough" ? p.thorough : p.quick) * scale)); };

  auto* slots = static_cast<Slot*>(
      mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(workers);
  auto* stopFlag = static_cast<volatile int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const double deadline = t0 + budget;
  Shared* shared = gShared;
  for (unsigned w = 0; w < workers; ++w) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      gShared = nullptr;
      // per worker scratch, so that checks that write files do not collide
      std::string wtmp = gTmp + "/w" + std::to_string(w);
      mkdir(wtmp.c_str(), 0755);
      setenv("PBT_TMP", wtmp.c_str(), 1);
      int fd = open((gTmp + "/werr." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 2);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      std::ofstream out(gTmp + "/res." + std::to_string(w));
      for (size_t pi = 0; pi < props.size(); ++pi) {
        const Prop& p = *props[pi];
        const long n = casesOf(p);
        Totals t;
        for (long idx = long((w + pi) % workers); idx < n; idx += workers) {
          if (*stopFlag != 0) break;
          slots[w].prop = int(pi);
          slots[w].idx = idx;
          slots[w].started = now();
          if (slots[w].started > deadline) {
            out << "T\n";
            break;
          }
          const bool describe = (idx % (n / 4 + 1)) < 3;
          Src src(caseSeed(seed, suite, p, idx));
          Case c(src, describe);
          auto o = runInProcess(p, c);
          slots[w].done = slots[w].done + 1;
          if (o.res == Res::Failed) {
            snprintf(slots[w].msg, sizeof(slots[w].msg), "%s", o.msg.c_str());
            slots[w].state = 2;
            _exit(77);
          }
          ++t.evals;
          t.comparisons += c.comparisons_;
          if (o.res == Res::Discarded) {
            ++t.discards;
            continue;
          }
          if (c.nontrivial_) {
            uint64_t h = hashStr(p.name);
            for (auto v : src.choices()) h = mix(h, v);
            t.fps.insert(h);
            if (describe && t.samples.size() < 2) t.samples.push_back(c.desc.str());
          }
          for (auto& l : c.labels_) t.labels[l.first] += l.second;
        }
        slots[w].started = 0;
        out << "P " << pi << " " << t.evals << " " << t.discards << " " << t.comparisons << "\n";
        for (auto& l : t.labels) out << "L " << l.second << " " << l.first << "\n";
        for (auto& s : t.samples) out << "S " << jsonEsc(s.substr(0, 3000)) << "\n";
        out << "F " << t.fps.size();
        for (auto f : t.fps) out << " " << f;
        out << "\n";
      }
      out.close();
      slots[w].state = 1;
      _exit(0);
    }
    pids[w] = pid;
  }
  // wait
  struct Found {
    int prop{-1};
    long idx{0};
    std::string msg;
    Res kind{Res::Failed};
  } found;
  auto take = [&](unsigned w, Res kind, const std::string& msg) {
    Found f;
    f.prop = slots[w].prop;
    f.idx = slots[w].idx;
    f.msg = msg;
    f.kind = kind;
    if (found.prop < 0 || std::make_pair(f.prop, f.idx) < std::make_pair(found.prop, found.idx)) found = f;
    *stopFlag = 1;
  };
  unsigned running = workers;
  double stopAt = 0;
  while (running > 0) {
    for (unsigned w = 0; w < workers; ++w) {
      if (pids[w] == 0) continue;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        pids[w] = 0;
        --running;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].state == 1) continue;
        if (slots[w].state == 2) {
          take(w, Res::Failed, slots[w].msg);
        } else if (stopAt == 0 || !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
          take(w, Res::Crashed,
               "crash (status " + std::to_string(st) + "): " + readFile(gTmp + "/werr." + std::to_string(w)));
        }
        continue;
      }
      const double started = slots[w].started;
      if (started > 0 && now() - started > suite.caseTimeout && stopAt == 0) {
        take(w, Res::Hung, "no result after " + std::to_string(int(suite.caseTimeout)) + " s");
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        pids[w] = 0;
        --running;
      }
    }
    if (*stopFlag != 0 && stopAt == 0) stopAt = now();
    if (stopAt > 0 && now() - stopAt > 5) {
      for (unsigned w = 0; w < workers; ++w)
        if (pids[w] != 0) kill(pids[w], SIGKILL);
    }
    usleep(20000);
  }
  gShared = shared;

  int rc = 0;
  std::string violation;
  if (found.prop >= 0) {
    const Prop& p = *props[size_t(found.prop)];
    uint64_t s = caseSeed(seed, suite, p, found.idx);
    std::cout << "sub-check " << p.name << " case " << found.idx << " failed: " << found.msg.substr(0, 1500) << "\n";
    auto first = runForked(p, &s, nullptr, suite.caseTimeout * 1.5, false);
    int tries = 1;
    while (!bad(first.res) && tries < 6) {
      first = runForked(p, &s, nullptr, suite.caseTimeout * 1.5, false);
      ++tries;
    }
    std::vector<uint64_t> best;
    std::string msg = found.msg, desc;
    bool confirmed = false;
    if (bad(first.res)) {
      best = first.choices;
      long attempts = 0;
      if (first.res != Res::Hung) best = shrink(p, best, first.res, getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : tier == "thorough" ? 120 : 45, suite.caseTimeout, attempts);
      // three replays
      int again = 0;
      const int want = first.res == Res::Hung ? 1 : 3;
      for (int i = 0; i < want; ++i) {
        auto o = runForked(p, nullptr, &best, suite.caseTimeout * 1.5, i == 0);
        if (i == 0) desc = o.desc;
        if (bad(o.res)) {
          ++again;
          msg = o.msg;
        }
      }
      confirmed = again > 0 || suite.nondeterministic;
      std::cout << "shrunk from " << first.choices.size() << " to " << best.size() << " choices in " << attempts
                << " attempts; reproduced " << again << "/" << want << "\n";
      if (again == 0) best = first.choices;
    }
    if (!confirmed && suite.nondeterministic) confirmed = true;
    if (!confirmed) {
      std::cout << "NOT REPRODUCED outside of the worker: reported with the full case seed instead\n";
      // Deterministic code that failed only with the worker's process history: still a failing history.
      // Re-run the worker's exact history once to make sure.
      fflush(nullptr);
      gShared->status = 0;
      pid_t pid = fork();
      if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        unsigned w = unsigned(((found.idx - found.prop) % long(workers) + long(workers)) % long(workers));
        for (int pi = 0; pi <= found.prop; ++pi) {
          const Prop& q = *props[size_t(pi)];
          const long n = casesOf(q);
          for (long idx = long((w + unsigned(pi)) % workers); idx < n; idx += workers) {
            Src src(caseSeed(seed, suite, q, idx));
            Case c(src, false);
            auto o = runInProcess(q, c);
            if (o.res == Res::Failed) {
              gShared->status = 3;
              _exit(1);
            }
            if (pi == found.prop && idx >= found.idx) {
              gShared->status = 1;
              _exit(0);
            }
          }
        }
        gShared->status = 1;
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      confirmed = gShared->status != 1;
    }
    if (confirmed) {
      std::string mk = "mkdir -p '" + replayDir + "'";
      if (system(mk.c_str()) != 0) std::cerr << "cannot create replay dir\n";
      violation = replayDir + "/" + suite.property + "_" + p.name + ".txt";
      std::ofstream rf(violation);
      rf << "# replay with: ./replay.sh " << suite.property << " <this file>\nprop " << p.name << "\nseed " << seed
         << "\ncase " << found.idx << "\nchoices";
      for (auto v : best) rf << " " << v;
      std::istringstream ms(msg + "\n" + desc);
      std::string line;
      rf << "\n";
      while (std::getline(ms, line)) rf << "# " << line << "\n";
      rf.close();
      std::cout << desc.substr(0, 4000) << "\n" << msg.substr(0, 4000) << "\n";
      rc = 1;
    } else {
      std::cout << "failure could not be reproduced in any way; not reported\n";
    }
  }
  // evidence
  Totals all;
  std::map<std::string, Totals> per;
  bool truncated = false;
  for (unsigned w = 0; w < workers; ++w) {
    std::ifstream in(gTmp + "/res." + std::to_string(w));
    std::string line;
    Totals* cur = nullptr;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      std::istringstream ss(line.size() > 2 ? line.substr(2) : "");
      if (line[0] == 'T') truncated = true;
      if (line[0] == 'P') {
        size_t pi;
        uint64_t e, d, cmp;
        ss >> pi >> e >> d >> cmp;
        cur = &per[props[pi]->name];
        cur->evals += e;
        cur->discards += d;
        cur->comparisons += cmp;
      } else if (cur != nullptr && line[0] == 'L') {
        uint64_t n;
        std::string name;
        ss >> n;
        std::getline(ss, name);
        cur->labels[name.substr(name.empty() ? 0 : 1)] += n;
      } else if (cur != nullptr && line[0] == 'S') {
        if (cur->samples.size() < 2) cur->samples.push_back(line.substr(2));
      } else if (cur != nullptr && line[0] == 'F') {
        size_t n;
        uint64_t f;
        ss >> n;
        while (ss >> f) cur->fps.insert(f);
      }
    }
  }
  uint64_t evals = 0, distinct = 0, comparisons = 0;
  for (auto& p : per) {
    evals += p.second.evals;
    distinct += p.second.fps.size();
    comparisons += p.second.comparisons;
  }
  // known findings
  std::set<std::string> listed;
  if (!knownFile.empty()) {
    std::ifstream in(knownFile);
    std::string line;
    while (std::getline(in, line)) {
      // known: property=<id> id=<finding id> <text>
      if (line.rfind("known: property=" + suite.property + " id=", 0) == 0) {
        auto rest = line.substr(("known: property=" + suite.property + " id=").size());
        listed.insert(rest.substr(0, rest.find(' ')));
      }
    }
  }
  std::vector<std::string> knownOut;
  for (auto& k : suite.known) {
    Prop kp;
    kp.fn = [&](Case&) {
      if (k.still()) throw Fail{"still"};
    };
    std::vector<uint64_t> none;
    auto o = runForked(kp, nullptr, &none, 120, false);
    if (bad(o.res)) {
      if (listed.count(k.id) != 0) {
        std::cout << "KNOWN-FINDING: property=" << suite.property << " " << k.id << ": " << k.what << "\n";
        knownOut.push_back(k.id);
      } else if (rc == 0) {
        rc = 1;
        violation = "known-probe-" + k.id;
        std::cout << "probe " << k.id << " fails: " << k.what << "\n";
      }
    }
  }
  const double wall = now() - t0;
  if (!evidence.empty()) {
    std::ofstream ev(evidence);
    ev << "{\n \"property\": \"" << suite.property << "\",\n \"tier\": \"" << (tier == "thorough" ? "thorough" : "quick")
       << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
       << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"comparisons\": " << comparisons
       << ",\n  \"rule\": \"" << jsonEsc(suite.rule) << "\",\n  \"stopped_by_time_limit\": " << (truncated ? "true" : "false")
       << ",\n  \"workers\": " << workers << ",\n  \"sub_checks\": {";
    bool firstP = true;
    for (auto* p : props) {
      auto& t = per[p->name];
      ev << (firstP ? "\n" : ",\n") << "   \"" << jsonEsc(p->name) << "\": {\"what\": \"" << jsonEsc(p->what)
         << "\", \"evaluations\": " << t.evals << ", \"discarded\": " << t.discards
         << ", \"distinct_nontrivial\": " << t.fps.size() << ", \"comparisons\": " << t.comparisons << ", \"classes\": {";
      bool f = true;
      for (auto& l : t.labels) {
        ev << (f ? "" : ", ") << "\"" << jsonEsc(l.first) << "\": " << l.second;
        f = false;
      }
      ev << "}}";
      firstP = false;
    }
    ev << "\n  },\n  \"samples\": [";
    bool f = true;
    for (auto* p : props) {
      for (auto& s : per[p->name].samples) {
        ev << (f ? "\n" : ",\n") << "   \"" << jsonEsc(p->name) << ": " << s << "\"";
        f = false;
      }
    }
    ev << "\n  ],\n  \"known_findings_reproduced\": [";
    f = true;
    for (auto& k : knownOut) {
      ev << (f ? "" : ", ") << "\"" << jsonEsc(k) << "\"";
      f = false;
    }
    ev << "]\n },\n \"assumptions\": [";
    f = true;
    for (auto& a : suite.assumptions) {
      ev << (f ? "" : ", ") << "\"" << jsonEsc(a) << "\"";
      f = false;
    }
    ev << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  }
  for (auto* p : props) {
    auto& t = per[p->name];
    std::cout << suite.property << " " << p->name << ": " << t.evals << " cases, " << t.fps.size()
              << " distinct non-trivial, " << t.discards << " discarded";
    for (auto& l : t.labels) std::cout << "; " << l.first << "=" << l.second;
    std::cout << "\n";
  }
  std::cout << suite.property << " " << tier << " seed " << seed << ": " << evals << " cases in " << wall << " s\n";
  cleanup();
  if (rc == 1) std::cout << "VIOLATION property=" << suite.property << " replay=" << violation << std::endl;
  return rc;
}
}  // namespace pbt
