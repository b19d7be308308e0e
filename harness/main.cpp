// Driver: runs the cases [from, to) of one property and reports what the monitors observed.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>

#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>

#include <locale>

#include "common.hpp"

namespace vh {
namespace {
// numbers as 1.234.567,8 wherever the global locale is asked
struct Grouped : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "ja"; }
  std::string do_falsename() const override { return "nein"; }
};

// what the library does must not depend on: whether it logs, the locale, what errno is left at, and whether the descriptor
// of an intermediate file is the first one there is
void circumstances(Ctx& ctx, std::uint64_t n) {
  static const bool fixed = [&] {
    for (const char* p : {"C02", "C15", "C28", "C01V", "C04V", "C21V"})
      if (ctx.prop == p) return true;
    spdlog::set_default_logger(spdlog::null_logger_mt("null"));
    return false;
  }();
  if (fixed) return;
  static const std::locale grouped(std::locale::classic(), new Grouped);
  const auto h = (n * 0x9e3779b97f4a7c15ULL) >> 32;
  const bool trace = h % 8 == 3, odd = h / 8 % 8 == 5 && ctx.prop != "C18";
  spdlog::set_level(trace ? spdlog::level::trace : spdlog::level::off);
  std::locale::global(odd ? grouped : std::locale::classic());
  if (trace) ctx.count("cases_with_logging");
  if (odd) ctx.count("cases_in_another_locale");
  static const bool writes = [&] {
    for (const char* p : {"C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C20", "C26"})
      if (ctx.prop == p) return true;
    return false;
  }();
  const bool first = writes && h / 64 % 8 == 2;
  if (first) {
    ::close(0);
    ctx.count("cases_without_standard_input");
  } else if (::fcntl(0, F_GETFD) == -1) {
    ::open("/dev/null", O_RDONLY);
  }
  static const int left[] = {0, ENOSPC, EINTR, ENOENT, EBADF, ERANGE, EAGAIN, 0};
  errno = left[h / 512 % 8];
}
}  // namespace

std::vector<Module>& modules() {
  static std::vector<Module> m;
  return m;
}

std::string strf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char* p = nullptr;
  const int n = vasprintf(&p, fmt, ap);
  va_end(ap);
  std::string s(p, static_cast<std::size_t>(n));
  free(p);
  return s;
}

std::string hex(const Bytes& b, std::size_t max) {
  std::string s;
  for (std::size_t i = 0; i < b.size() && i < max; ++i) s += strf("%02x", b[i]);
  if (b.size() > max) s += strf("..(%zu bytes)", b.size());
  return s;
}

std::string diff_bytes(const Bytes& got, const Bytes& want) {
  std::size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  const std::size_t a = i > 8 ? i - 8 : 0;
  auto cut = [a](const Bytes& b) {
    return hex(Bytes(b.begin() + static_cast<long>(std::min(a, b.size())),
                     b.begin() + static_cast<long>(std::min(a + 24, b.size()))));
  };
  return strf("size got=%zu want=%zu first difference at %zu: got[%zu..]=%s want=%s", got.size(), want.size(), i, a,
              cut(got).c_str(), cut(want).c_str());
}

std::string diff_text(const std::string& got, const std::string& want) {
  std::size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  const std::size_t a = i > 60 ? i - 60 : 0;
  return strf("first difference at %zu: got \"%s\" want \"%s\"", i, got.substr(a, 160).c_str(),
              want.substr(a, 160).c_str());
}

Bytes read_file(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return Bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      o += strf("\\u%04x", c);
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

static std::uint64_t* g_cur = nullptr;

}  // namespace vh

int main(int argc, char** argv) {
  using namespace vh;
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  Ctx ctx;
  ctx.prop = a["--prop"];
  ctx.seed = a.count("--seed") ? std::strtoull(a["--seed"].c_str(), nullptr, 10) : 1;
  ctx.verbose = a.count("--verbose") != 0;
  if (a.count("--tier")) ctx.tier = a["--tier"];
  if (a.count("--scratch")) ctx.scratch = a["--scratch"];
  std::uint64_t from = a.count("--from") ? std::strtoull(a["--from"].c_str(), nullptr, 10) : 0;
  std::uint64_t to = a.count("--to") ? std::strtoull(a["--to"].c_str(), nullptr, 10) : from + 1;
  const std::uint64_t stride = a.count("--stride") ? std::strtoull(a["--stride"].c_str(), nullptr, 10) : 1;
  const double limit = a.count("--limit") ? std::atof(a["--limit"].c_str()) : 1e9;
  const unsigned case_limit = a.count("--case-limit") ? static_cast<unsigned>(std::atoi(a["--case-limit"].c_str())) : 60;
  if (a.count("--cur")) {
    const int fd = ::open(a["--cur"].c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ::ftruncate(fd, 16) != 0) return 3;
    g_cur = static_cast<std::uint64_t*>(::mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    ::close(fd);
    if (g_cur == MAP_FAILED) return 3;
    g_cur[0] = ~0ULL;
  }
  spdlog::set_level(spdlog::level::off);
  const Module* mod = nullptr;
  for (const auto& m : modules())
    if (ctx.prop == m.prop) mod = &m;
  if (!mod) {
    std::fprintf(stderr, "unknown property %s\n", ctx.prop.c_str());
    return 3;
  }
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  std::uint64_t cases = 0;
  bool cut = false;
  for (std::uint64_t c = from; c < to; c += stride) {
    timespec t1;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (static_cast<double>(t1.tv_sec - t0.tv_sec) + 1e-9 * static_cast<double>(t1.tv_nsec - t0.tv_nsec) > limit) {
      cut = true;
      break;
    }
    ctx.case_no = c;
    if (g_cur) g_cur[0] = c;
    Rng rng(ctx.seed * 0x9e3779b97f4a7c15ULL ^ fnv(ctx.prop) ^ (c * 0xd1342543de82ef95ULL));
    rng.next();
    circumstances(ctx, c);
    // a case that does not end is killed by SIGALRM; the runner reports it as a hang at this case
    ::alarm(case_limit);
    try {
      mod->run(ctx, rng, c);
    } catch (const std::exception& e) {
      ctx.fail("unexpected-exception", std::string("escaped the case: ") + e.what());
    }
    ::alarm(0);
    ++cases;
    if (ctx.failures.size() >= 40) break;
  }
  if (g_cur) g_cur[0] = ~0ULL;
  std::locale::global(std::locale::classic());
  if (mod->finish) mod->finish(ctx);
  std::string o = "{\"cases\":" + std::to_string(cases) + ",\"cut\":" + (cut ? "true" : "false") +
                  ",\"evaluations\":" + std::to_string(ctx.evaluations) + ",\"counts\":{";
  bool first = true;
  for (const auto& [k, v] : ctx.counts) {
    o += (first ? "" : ",") + json_str(k) + ":" + std::to_string(v);
    first = false;
  }
  o += "},\"distinct\":[";
  first = true;
  for (auto d : ctx.distinct) {
    o += (first ? "" : ",") + std::to_string(d);
    first = false;
  }
  o += "],\"samples\":[";
  first = true;
  for (const auto& s : ctx.samples) {
    o += (first ? "" : ",") + json_str(s);
    first = false;
  }
  o += "],\"failures\":[";
  first = true;
  for (const auto& f : ctx.failures) {
    o += std::string(first ? "" : ",") + "{\"key\":" + json_str(f.key) + ",\"case\":" + std::to_string(f.case_no) +
         ",\"msg\":" + json_str(f.msg) + "}";
    first = false;
  }
  o += "]}\n";
  if (a.count("--out")) {
    std::ofstream f(a["--out"], std::ios::binary);
    f << o;
    f.close();
    if (!f.good()) return 3;
  } else {
    for (const auto& f : ctx.failures)
      std::printf("FAIL key=%s case=%llu %s\n", f.key.c_str(), static_cast<unsigned long long>(f.case_no),
                  f.msg.c_str());
    std::printf("cases=%llu evaluations=%llu distinct=%zu failures=%zu\n", static_cast<unsigned long long>(cases),
                static_cast<unsigned long long>(ctx.evaluations), ctx.distinct.size(), ctx.failures.size());
    for (const auto& [k, v] : ctx.counts)
      std::printf("  %s=%llu\n", k.c_str(), static_cast<unsigned long long>(v));
    for (const auto& s : ctx.samples) std::printf("  sample: %s\n", s.c_str());
  }
  std::fflush(nullptr);
  return 0;
}
