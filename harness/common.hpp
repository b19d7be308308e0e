// Shared plumbing of the runtime monitors: random source, reporting, driver interface.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

using Bytes = std::vector<std::uint8_t>;

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
  std::uint64_t range(std::uint64_t a, std::uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  bool flag() { return (next() & 1) != 0; }
  // unsigned value of `bits` bits, biased towards the edges of the range
  std::uint64_t edge(unsigned bits) {
    const std::uint64_t mask = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
    switch (below(8)) {
      case 0: return 0;
      case 1: return mask;
      case 2: return 1;
      case 3: return (1ULL << below(bits)) & mask;
      case 4: return ((1ULL << below(bits)) - 1) & mask;
      default: return next() & mask;
    }
  }
  // signed value of `bits` bits (two's complement range), biased
  std::int64_t sedge(unsigned bits) {
    const std::uint64_t v = edge(bits);
    if (bits >= 64) return static_cast<std::int64_t>(v);
    const std::uint64_t sign = 1ULL << (bits - 1);
    return static_cast<std::int64_t>((v ^ sign)) - static_cast<std::int64_t>(sign);
  }
  std::uint8_t u8() { return static_cast<std::uint8_t>(edge(8)); }
  std::uint16_t u16() { return static_cast<std::uint16_t>(edge(16)); }
  std::uint32_t u32() { return static_cast<std::uint32_t>(edge(32)); }
  std::uint64_t u64() { return edge(64); }
  Bytes bytes(std::size_t n) {
    Bytes b(n);
    for (auto& c : b) c = static_cast<std::uint8_t>(next());
    return b;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
};

inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL) {
  auto c = static_cast<const std::uint8_t*>(p);
  for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}
inline std::uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

struct Failure {
  std::string key, msg;
  std::uint64_t case_no;
};

// What the monitors of one run observed.
struct Ctx {
  std::string prop;
  std::uint64_t seed = 1;
  std::uint64_t case_no = 0;
  bool verbose = false;
  std::string tier = "quick";
  std::string scratch = "/tmp";
  // the checks run with the scratch directory as their working directory: in some cases the same place is named from there
  std::string named(const std::string& path) const {
    const auto k = case_no * 0x9e3779b97f4a7c15ULL >> 61;
    if (k > 2 || path.compare(0, scratch.size() + 1, scratch + "/") != 0) return path;
    return (k == 2 ? "./" : "") + path.substr(scratch.size() + 1);
  }
  std::map<std::string, std::uint64_t> counts;  // named observation counters
  std::unordered_set<std::uint64_t> distinct;   // signatures of distinct non-trivial situations
  std::vector<std::string> samples;
  std::vector<Failure> failures;
  std::uint64_t evaluations = 0;

  void count(const std::string& name, std::uint64_t n = 1) { counts[name] += n; }
  void maxi(const std::string& name, std::uint64_t n) {
    auto& c = counts["max_" + name];
    if (n > c) c = n;
  }
  void seen(const std::string& signature) { distinct.insert(fnv(signature)); }
  void sample(const std::string& s) {
    if (samples.size() < 8) samples.push_back(s);
  }
  void fail(const std::string& key, const std::string& msg) {
    if (failures.size() < 40) failures.push_back({key, msg, case_no});
  }
  // evaluates one oracle instance
  bool check(bool ok, const std::string& key, const std::function<std::string()>& msg) {
    ++evaluations;
    if (!ok) fail(key, msg());
    return ok;
  }
};

using CaseFn = void (*)(Ctx&, Rng&, std::uint64_t case_no);
struct Module {
  const char* prop;
  CaseFn run;
  void (*finish)(Ctx&);  // optional end-of-run oracle
};
std::vector<Module>& modules();
struct Register {
  Register(const char* prop, CaseFn fn, void (*fin)(Ctx&) = nullptr) { modules().push_back({prop, fn, fin}); }
};

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const Bytes& b, std::size_t max = 64);
std::string diff_bytes(const Bytes& got, const Bytes& want);
std::string diff_text(const std::string& got, const std::string& want);
Bytes read_file(const std::string& path);

}  // namespace vh
