// A small choice-sequence property-based testing engine: see /verif/DESIGN.md.
// A case is the list of bounded integers drawn by the generator; shrinking edits that list and replays it.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Fail {  // deliberately not derived from std::exception
  std::string msg;
};
struct Discard {};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(const std::string& s);

//! Source of choices: random (recording) or replayed.
class Src {
 public:
  explicit Src(uint64_t seed);
  explicit Src(std::vector<uint64_t> replay);
  uint64_t below(uint64_t n);                 //!< [0,n), shrinks to 0
  int64_t range(int64_t lo, int64_t hi);      //!< inclusive; shrinks to lo if lo>=0, to 0 if lo<0<=hi
  bool flip() { return below(2) == 1; }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  //!< true with num/den
  size_t size(size_t lo, size_t hi);          //!< like range but biased to small values
  double grid(double lo, double hi, double step);  //!< lo + k*step
  double real(double lo, double hi);          //!< 2^-30 resolution
  template <typename V>
  const typename V::value_type& pick(const V& v) {
    return *std::next(v.begin(), below(v.size()));
  }
  template <typename T>
  T of(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
  size_t weighted(std::initializer_list<unsigned> w);
  const std::vector<uint64_t>& choices() const { return rec_; }

 private:
  uint64_t next();
  uint64_t s_[4];
  bool replay_{false};
  size_t pos_{0};
  std::vector<uint64_t> rec_;
  std::vector<uint64_t> in_;
};

class Case {
 public:
  Case(Src& s, bool describe) : src(s), describing_(describe) {}
  Src& src;
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string& l, uint64_t n = 1) { labels_[l] += n; }
  bool describing() const { return describing_; }
  template <typename F>
  void describe(F&& f) {
    if (describing_) f(desc);
  }
  //! number of elementary comparisons made by this case (reported as "comparisons")
  void did(uint64_t n = 1) { comparisons_ += n; }

  std::ostringstream desc;
  bool nontrivial_{false};
  bool describing_;
  uint64_t comparisons_{0};
  std::map<std::string, uint64_t> labels_;
};

struct Prop {
  std::string name;
  std::string what;   //!< what one case is and when it is non-trivial
  long quick;         //!< cases in the quick tier
  long thorough;      //!< cases in the thorough tier
  std::function<void(Case&)> fn;
};

//! A listed known finding: still() re-executes the exact recorded input and returns true if it still fails.
struct Known {
  std::string id;
  std::string what;
  std::function<bool()> still;
};

struct Suite {
  std::string property;
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Prop> props;
  std::vector<Known> known;
  bool nondeterministic{false};  //!< schedules matter: one reproduction is not required (e.g. race detector reports)
  unsigned workers{0};           //!< 0: one per core
  double caseTimeout{60};
};

int runMain(const Suite& suite, int argc, char** argv);

template <typename... A>
std::string str(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  (void)std::initializer_list<int>{((o << a), 0)...};
  return o.str();
}

}  // namespace pbt

#define PBT_STR1(x) #x
#define PBT_STR(x) PBT_STR1(x)
//! messages are stream expressions: PBT_CHECK(a < b, "at " << i)
#define PBT_CHECK(cond, ...)                                                                     \
  do {                                                                                           \
    if (!(cond)) {                                                                               \
      std::ostringstream pbt_o_;                                                                 \
      pbt_o_.precision(17);                                                                      \
      pbt_o_ << __FILE__ ":" PBT_STR(__LINE__) ": " #cond " -- " << __VA_ARGS__;                 \
      throw ::pbt::Fail{pbt_o_.str()};                                                           \
    }                                                                                            \
  } while (0)
#define PBT_EQ(a, b, ...)                                                                        \
  do {                                                                                           \
    const auto pbt_a_ = (a);                                                                     \
    const auto pbt_b_ = (b);                                                                     \
    if (!(pbt_a_ == pbt_b_)) {                                                                   \
      std::ostringstream pbt_o_;                                                                 \
      pbt_o_.precision(17);                                                                      \
      pbt_o_ << __FILE__ ":" PBT_STR(__LINE__) ": " #a " == " #b " got " << pbt_a_ << " vs " << pbt_b_ << " -- " \
             << __VA_ARGS__;                                                                     \
      throw ::pbt::Fail{pbt_o_.str()};                                                           \
    }                                                                                            \
  } while (0)
