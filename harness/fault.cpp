// C16 failures of the output, the intermediate file and the input.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fmt/format.h>
#include <signal.h>
#include <stdio.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <functional>
#include <memory>
#include <iostream>
#include <sstream>

#include "gen.hpp"
#include "scenario.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "sparse.hpp"
#include "tree.hpp"

namespace {
// faults of the C library calls on the intermediate file
enum Call16 { kFwrite, kFread, kFseek, kFtell, kFclose, kFdopen, kMkstemp, kFflush, kCalls };
const char* const kCallNames[] = {"fwrite", "fread", "fseek", "ftell", "fclose", "fdopen", "mkstemp", "fflush"};
struct {
  bool on = false;
  std::uint64_t count[kCalls] = {};
  int target = -1;
  std::uint64_t at = 0;
  bool stay = false;
  bool fired = false;
  const std::string* step = nullptr;  // what is in progress
  std::string fired_in;
} g;

bool hit(int call) {
  if (!g.on) return false;
  const std::uint64_t k = g.count[call]++;
  if (g.target != call) return false;
  if (k == g.at || (g.stay && k > g.at)) {
    if (!g.fired && g.step) g.fired_in = *g.step;
    g.fired = true;
    return true;
  }
  return false;
}
}  // namespace

extern "C" {
std::size_t __real_fwrite(const void*, std::size_t, std::size_t, FILE*);
std::size_t __real_fread(void*, std::size_t, std::size_t, FILE*);
int __real_fseek(FILE*, long, int);
long __real_ftell(FILE*);
int __real_fclose(FILE*);
FILE* __real_fdopen(int, const char*);
int __real_mkstemp(char*);
int __real_fflush(FILE*);

std::size_t __wrap_fwrite(const void* p, std::size_t s, std::size_t n, FILE* f) {
  if (s * n && hit(kFwrite)) {
    f->_flags |= 0x20;  // the stream's error indicator
    errno = ENOSPC;
    return __real_fwrite(p, s, n / 2, f);
  }
  return __real_fwrite(p, s, n, f);
}
std::size_t __wrap_fread(void* p, std::size_t s, std::size_t n, FILE* f) {
  if (hit(kFread)) {
    const std::size_t k = __real_fread(p, s, n / 2, f);
    f->_flags |= 0x20;
    errno = EIO;
    return k;
  }
  return __real_fread(p, s, n, f);
}
int __wrap_fseek(FILE* f, long o, int w) {
  if (hit(kFseek)) {
    errno = EIO;
    return -1;
  }
  return __real_fseek(f, o, w);
}
long __wrap_ftell(FILE* f) {
  if (hit(kFtell)) {
    errno = EIO;
    return -1;
  }
  return __real_ftell(f);
}
int __wrap_fclose(FILE* f) {
  const bool h = hit(kFclose);
  const int r = __real_fclose(f);
  if (h) {
    errno = EIO;
    return EOF;
  }
  return r;
}
FILE* __wrap_fdopen(int fd, const char* m) {
  if (hit(kFdopen)) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_fdopen(fd, m);
}
int __wrap_mkstemp(char* t) {
  if (hit(kMkstemp)) {
    errno = EACCES;
    return -1;
  }
  return __real_mkstemp(t);
}
int __wrap_fflush(FILE* f) {
  if (f && hit(kFflush)) {
    errno = EIO;
    return EOF;
  }
  return __real_fflush(f);
}
}

namespace vh {
namespace {
namespace fs = std::filesystem;

enum class Mode { none, fail, raise, budget };

// output that fails: at one operation, from one operation on, or after a number of bytes
class FaultyOut : public MemBuf {
 public:
  std::uint64_t ops = 0, seeks = 0;
  Mode mode = Mode::none;
  bool stay = false;
  std::uint64_t at = 0;
  bool fired = false;
  std::string step, fired_in;  // the step in progress

 protected:
  bool fault() {
    const std::uint64_t k = ops++;
    if ((mode == Mode::fail || mode == Mode::raise) && (k == at || (stay && k > at))) {
      note();
      if (mode == Mode::raise) throw std::runtime_error("the device failed");
      return true;
    }
    return false;
  }
  void note() {
    if (!fired) fired_in = step;
    fired = true;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (n == 0) return 0;
    if (fault()) return 0;
    if (mode == Mode::budget && data.size() + static_cast<std::uint64_t>(n) > at && pos + static_cast<std::uint64_t>(n) > at) {
      note();
      const std::uint64_t room = at > pos ? at - pos : 0;
      return MemBuf::xsputn(p, static_cast<std::streamsize>(std::min<std::uint64_t>(room, static_cast<std::uint64_t>(n))));
    }
    return MemBuf::xsputn(p, n);
  }
  int_type overflow(int_type c) override {
    const char ch = static_cast<char>(c);
    return xsputn(&ch, 1) == 1 ? traits_type::not_eof(c) : traits_type::eof();
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override {
    ++seeks;
    if (fault()) return pos_type(off_type(-1));
    return MemBuf::seekoff(o, d, m);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return FaultyOut::seekoff(off_type(p), std::ios_base::beg, m); }
};

struct Outcome {
  bool threw = false;
  std::string what, step;  // the step that threw
  std::string path;
  Bytes file;
};

// the fd of the intermediate file
int find_fd(const std::string& path) {
  std::error_code ec;
  for (const auto& e : fs::directory_iterator("/proc/self/fd", ec)) {
    if (fs::read_symlink(e.path(), ec) == path) return std::stoi(e.path().filename().string());
  }
  return -1;
}

Outcome attempt(const Spec& s, FaultyOut& buf, bool exceptions, const Stage& extra = nullptr) {
  Outcome o;
  std::ostream os(&buf);
  if (exceptions) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
  std::string step = "create";
  std::uint64_t calls = 0;
  buf.step = step;
  for (auto& c : g.count) c = 0;
  g.fired = false;
  g.fired_in.clear();
  g.step = &step;
  g.on = true;
  try {
    execute(s, os, [&](const char* what, mp4::writer::Writer* w) {
      g.on = false;
      if (auto* f = dynamic_cast<mp4::writer::FaststartWriter*>(w)) o.path = f->getIntermediateFilePath().string();
      if (extra) extra(what, w);
      // what has been completed; the next step is in progress from here
      step = std::string("after ") + what + (std::string(what) == "call" ? std::to_string(++calls) : "");
      buf.step = step;
      g.on = true;
    });
  } catch (const std::exception& e) {
    o.threw = true;
    o.what = e.what();
    o.step = step;
  }
  g.on = false;
  g.step = nullptr;
  o.file = buf.data;
  if (!o.path.empty()) ::unlink(o.path.c_str());
  return o;
}

struct Base {
  Bytes file;
  DMovie m;
  std::uint64_t ops = 0;
  std::uint64_t count[kCalls] = {};
};

bool same_recording(const Base& b, const Bytes& got) {
  if (got.size() != b.file.size()) return false;
  return normalised(got, b.m) == normalised(b.file, b.m);
}

void judge(Ctx& ctx, const std::string& kind, const std::string& point, const Spec& s, const Base& b, const Outcome& o, bool fired) {
  ctx.count("runs");
  if (fired) ctx.count("faults." + kind);
  if (o.threw) ctx.count("reported." + kind);
  ctx.seen(summary(s) + kind + point);
  // whatever went wrong: either somebody was told, or nothing is missing
  ctx.check(o.threw || same_recording(b, o.file), "silent." + kind, [&] {
    return fmt::format("{} ({}): every step returned normally but the output is not the recording ({} bytes, {} expected) | {}", kind, point, o.file.size(),
                       b.file.size(), summary(s));
  });
  if (!fired) {
    ctx.check(!o.threw, "spurious." + kind, [&] { return fmt::format("{} ({}): nothing failed, but: {} | {}", kind, point, o.what, summary(s)); });
  }
}

void writer_case(Ctx& ctx, Rng& r, std::uint64_t n) {
  SpecOptions so;
  so.max_samples = static_cast<unsigned>(r.range(1, 14));
  so.max_tracks = 3;
  so.max_size = r.chance(1, 4) ? 9000 : 200;
  so.big_data = n % 60 == 5;
  Spec s = gen_spec(r, so);
  s.faststart = n % 2;
  s.path_template = ctx.named(ctx.scratch + "/mdatXXXXXX");
  Base b;
  {
    FaultyOut buf;
    const Outcome o = attempt(s, buf, false);
    if (!ctx.check(!o.threw, "refused", [&] { return "a legal sequence of calls was refused: " + o.what + " | " + summary(s); })) return;
    b.file = o.file;
    b.ops = buf.ops;
    std::copy(std::begin(g.count), std::end(g.count), std::begin(b.count));
    b.m = demux(source_of(b.file));
  }
  ctx.count("recordings");
  ctx.count(s.faststart ? "faststart" : "simple");
  const unsigned points = ctx.tier == "quick" ? 16 : 60;
  // output: single operations
  for (unsigned i = 0; i < points; ++i) {
    FaultyOut buf;
    buf.mode = r.chance(1, 4) ? Mode::raise : Mode::fail;
    buf.stay = r.flag();
    // operations near the ends matter most; the rest at random
    buf.at = r.chance(1, 4) ? r.below(std::min<std::uint64_t>(b.ops, 8)) : r.chance(1, 4) ? b.ops - 1 - r.below(std::min<std::uint64_t>(b.ops, 8)) : r.below(b.ops);
    const bool ex = r.chance(1, 8);
    const Outcome o = attempt(s, buf, ex);
    const std::string kind = buf.mode == Mode::raise ? "output-throws" : buf.stay ? "output-stays-broken" : "output-once";
    judge(ctx, kind, fmt::format("operation {} of {}", buf.at, b.ops), s, b, o, buf.fired);
    if (buf.fired)
      ctx.check(o.threw && o.step == buf.fired_in, "late." + kind, [&] {
        return fmt::format("{}: operation {} failed in the step {}, which was {} | {}", kind, buf.at, buf.fired_in,
                           o.threw ? "reported only in the step " + o.step : "not reported", summary(s));
      });
  }
  // output: room for so many bytes
  for (unsigned i = 0; i < points / 2; ++i) {
    FaultyOut buf;
    buf.mode = Mode::budget;
    buf.at = r.chance(1, 4) ? b.file.size() - 1 - r.below(std::min<std::size_t>(b.file.size(), 20)) : r.below(b.file.size() + 1);
    const Outcome o = attempt(s, buf, false);
    judge(ctx, "output-full", fmt::format("after {} bytes", buf.at), s, b, o, buf.fired);
    if (buf.fired)
      ctx.check(o.threw && o.step == buf.fired_in, "late.output-full", [&] {
        return fmt::format("the output was full after {} bytes in the step {}, which was {} | {}", buf.at, buf.fired_in,
                           o.threw ? "reported only in the step " + o.step : "not reported", summary(s));
      });
  }
  if (!s.faststart) return;
  // the C library's calls on the intermediate file
  for (int call = 0; call < kCalls; ++call) {
    const unsigned k = std::min<unsigned>(static_cast<unsigned>(b.count[call]), call == kFwrite || call == kFread ? points / 2 : 2);
    for (unsigned i = 0; i < k; ++i) {
      g.target = call;
      g.at = r.below(b.count[call]);
      g.stay = r.flag();
      FaultyOut buf;
      const Outcome o = attempt(s, buf, false);
      const bool fired = g.fired;
      g.target = -1;
      // left behind by a constructor that failed
      for (const auto& e : fs::directory_iterator(ctx.scratch))
        if (e.path().filename().string().compare(0, 4, "mdat") == 0) fs::remove(e.path());
      judge(ctx, kCallNames[call], fmt::format("call {} of {}", g.at, b.count[call]), s, b, o, fired);
      if (fired && (call == kFwrite || call == kFread || call == kFseek || call == kFtell))
        ctx.check(o.threw && o.step == g.fired_in, std::string("late.") + kCallNames[call], [&] {
          return fmt::format("{} number {} on the intermediate file failed in the step {}, which was {} | {}", kCallNames[call], g.at, g.fired_in,
                             o.threw ? "reported only in the step " + o.step : "not reported", summary(s));
        });
    }
  }
  // a limit on the size of the intermediate file
  for (unsigned i = 0; i < 4; ++i) {
    const std::uint64_t media = b.m.mdat.size - b.m.mdat.header;
    rlimit old;
    ::getrlimit(RLIMIT_FSIZE, &old);
    rlimit lim = old;
    lim.rlim_cur = r.below(media + 2);
    FaultyOut buf;
    ::setrlimit(RLIMIT_FSIZE, &lim);
    const Outcome o = attempt(s, buf, false);
    ::setrlimit(RLIMIT_FSIZE, &old);
    judge(ctx, "file-limit", fmt::format("{} of {} bytes", lim.rlim_cur, media), s, b, o, lim.rlim_cur < media);
  }
  // the intermediate file damaged, or its descriptor broken, at some step
  const char* const kinds[] = {"truncated", "grown", "closed", "null", "directory", "writeonly", "readonly"};
  for (unsigned i = 0; i < 7; ++i) {
    const std::string kind = kinds[i];
    const std::uint64_t when = r.below(s.calls.size() + 5);
    std::uint64_t k = 0;
    bool done = false;
    FaultyOut buf;
    const Outcome o = attempt(s, buf, false, [&](const char* what, mp4::writer::Writer* w) {
      const bool copied = std::string(what) == "copied";
      if (done || copied) return;
      // cut or grow only when all samples are in
      if (i < 2 ? std::string(what) != (when % 3 == 0 ? "appended" : when % 3 == 1 ? "moov" : "mdat") : k++ != when) return;
      done = true;
      const std::string path = dynamic_cast<mp4::writer::FaststartWriter*>(w)->getIntermediateFilePath().string();
      ::fflush(nullptr);
      const std::uint64_t size = fs::file_size(path);
      if (kind == "truncated") {
        if (size == 0) {
          done = false;
          return;
        }
        fs::resize_file(path, r.flag() ? size - 1 : r.below(size));
        return;
      }
      if (kind == "grown") {
        fs::resize_file(path, size + 1 + r.below(5000));
        return;
      }
      const int fd = find_fd(path);
      if (fd < 0) {
        done = false;
        return;
      }
      if (kind == "closed") {
        ::close(fd);
        return;
      }
      const std::string plain = ctx.scratch + "/plain.bin";
      const int other = kind == "null"        ? ::open("/dev/null", O_RDWR)
                        : kind == "directory" ? ::open(ctx.scratch.c_str(), O_RDONLY | O_DIRECTORY)
                        : kind == "writeonly" ? ::open(plain.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600)
                                              : ::open(path.c_str(), O_RDONLY);
      ::lseek(other, ::lseek(fd, 0, SEEK_CUR), SEEK_SET);
      ::dup2(other, fd);
      ::close(other);
    });
    // a descriptor that only fails for what is no longer done does no harm
    ctx.count("runs");
    if (done) ctx.count("faults." + kind);
    if (o.threw) ctx.count("reported." + kind);
    ctx.seen(summary(s) + kind + std::to_string(when));
    ctx.check(o.threw || same_recording(b, o.file), "silent." + kind, [&] {
      return fmt::format("intermediate file {} at step {}: every step returned normally but the output is not the recording | {}", kind, when, summary(s));
    });
    if (!done) ctx.check(!o.threw, "spurious." + kind, [&] { return "nothing failed, but: " + o.what; });
  }
  // places where no intermediate file can be made
  for (const std::string& t : {ctx.scratch + "/no/such/dir/mdatXXXXXX", ctx.scratch + "/mdat", std::string("/dev/null/mdatXXXXXX"), std::string("")}) {
    Spec q = s;
    q.path_template = t;
    FaultyOut buf;
    const Outcome o = attempt(q, buf, false);
    ctx.count("faults.template");
    ctx.check(o.threw, "silent.template", [&] { return "no intermediate file can be created from \"" + t + "\", but nothing was reported"; });
  }
}

// input that fails at one operation, delivers less than its size promises, or raises
class FaultyIn : public std::streambuf {
 public:
  explicit FaultyIn(const Bytes& b) : m_b(b) {}
  std::uint64_t ops = 0;
  Mode mode = Mode::none;
  bool stay = false, fired = false;
  std::size_t where() const { return m_pos; }
  std::uint64_t at = 0;  // operation, or for budget the position from which nothing can be read

 protected:
  bool fault() {
    const std::uint64_t k = ops++;
    if ((mode == Mode::fail || mode == Mode::raise) && (k == at || (stay && k > at))) {
      fired = true;
      if (mode == Mode::raise) throw std::runtime_error("the device failed");
      return true;
    }
    return false;
  }
  int_type underflow() override {
    if (fault() || m_pos >= end()) return traits_type::eof();
    return traits_type::to_int_type(static_cast<char>(m_b[m_pos]));
  }
  int_type uflow() override {
    if (fault() || m_pos >= end()) return traits_type::eof();
    return traits_type::to_int_type(static_cast<char>(m_b[m_pos++]));
  }
  std::streamsize xsgetn(char* p, std::streamsize n) override {
    if (fault()) return 0;
    const std::size_t k = std::min<std::size_t>(static_cast<std::size_t>(n), m_pos < end() ? end() - m_pos : 0);
    if (k < static_cast<std::size_t>(n) && mode == Mode::budget) fired = true;
    std::copy_n(reinterpret_cast<const char*>(m_b.data()) + m_pos, k, p);
    m_pos += k;
    return static_cast<std::streamsize>(k);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    if (fault()) return pos_type(off_type(-1));
    const off_type base = d == std::ios_base::beg ? 0 : static_cast<off_type>(d == std::ios_base::cur ? m_pos : m_b.size());
    if (base + o < 0 || base + o > static_cast<off_type>(m_b.size())) return pos_type(off_type(-1));
    m_pos = static_cast<std::size_t>(base + o);
    return pos_type(base + o);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return FaultyIn::seekoff(off_type(p), std::ios_base::beg, m); }

 private:
  std::size_t end() {
    if (mode == Mode::budget && m_pos >= at) fired = true;
    return mode == Mode::budget ? std::min<std::size_t>(at, m_b.size()) : m_b.size();
  }
  const Bytes& m_b;
  std::size_t m_pos = 0;
};

Dump read_from(FaultyIn& in, bool exceptions) {
  std::istream is(&in);
  std::ostringstream os;
  std::streambuf* old = std::cout.rdbuf(os.rdbuf());
  Dump d{true, "", ""};
  try {
    if (exceptions) is.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    mp4::reader::SimpleReader reader(is);
    reader.read();
  } catch (const std::exception& e) {
    d.ok = false;
    d.error = e.what();
  }
  std::cout.rdbuf(old);
  d.text = os.str();
  return d;
}

void reader_case(Ctx& ctx, Rng& r, std::uint64_t) {
  TreeOptions o;
  o.forms = r.flag();
  o.unknown = r.flag();
  o.max_nodes = 10;
  const auto f = gen_forest(r, o);
  const Bytes b = encode(f);
  if (b.size() > 20000) return;
  FaultyIn whole(b);
  const Dump want = read_from(whole, false);
  if (!ctx.check(want.ok, "refused-input", [&] { return "a well-formed file was refused: " + want.error; })) return;
  ctx.count("inputs");
  const unsigned points = ctx.tier == "quick" ? 24 : 80;
  for (unsigned i = 0; i < points; ++i) {
    FaultyIn in(b);
    in.mode = r.chance(1, 3) ? Mode::budget : r.chance(1, 4) ? Mode::raise : Mode::fail;
    in.stay = r.flag();
    in.at = in.mode == Mode::budget ? r.below(b.size()) : r.chance(1, 3) ? r.below(std::min<std::uint64_t>(whole.ops, 12)) : r.below(whole.ops);
    const Dump d = read_from(in, r.chance(1, 8));
    const std::string kind = in.mode == Mode::budget ? "input-short" : in.mode == Mode::raise ? "input-throws" : in.stay ? "input-stays-broken" : "input-once";
    if (in.fired) ctx.count("faults." + kind);
    if (!d.ok) ctx.count("reported." + kind);
    ctx.seen(shape(f) + kind + std::to_string(in.at));
    ctx.check(!d.ok || d.text == want.text, "silent." + kind, [&] {
      return fmt::format("{} at {} (of {} operations, {} bytes): the read returned normally with another dump: {} | {}", kind, in.at, whole.ops, b.size(),
                         diff_text(d.text, want.text), shape(f));
    });
    if (!in.fired) ctx.check(d.ok, "spurious." + kind, [&] { return kind + ": nothing failed, but: " + d.error; });
  }
}

// The parts a program can use by itself: bit-level writing and reading, headers, single boxes, box trees.
struct Op {
  std::string name;
  std::function<void(mp4::bitio::Writer&, std::ostream&)> write;
};

Op gen_write_op(Rng& r, std::uint64_t& bits) {
  auto raw = [&](std::size_t n) {
    Bytes b(n);
    // zeros often: what is lost when they are lost is easily overlooked
    if (r.flag())
      for (auto& c : b) c = r.u8();
    return b;
  };
  switch (bits % 8 ? r.below(2) : r.below(8)) {
    case 0: {
      const std::uint64_t w = r.range(1, 64), v = r.edge(static_cast<unsigned>(w));
      bits += w;
      return {fmt::format("write_uint({})", w), [=](auto& o, auto&) { mp4::bitio::write_uint<std::uint64_t>(&o, v, w); }};
    }
    case 1: {
      const bool v = r.flag();
      bits += 1;
      return {"write_bool", [=](auto& o, auto&) { mp4::bitio::write_bool(&o, v); }};
    }
    case 2: {
      const Bytes b = raw(r.below(60));
      const std::string t(b.begin(), std::find(b.begin(), b.end(), 0));
      return {"write_string", [=](auto& o, auto&) { mp4::bitio::write_string(&o, t); }};
    }
    case 3: {
      const Bytes b = raw(r.below(60));
      return {"write_pascal_string", [=](auto& o, auto&) { mp4::bitio::write_pascal_string(&o, std::string(b.begin(), b.end())); }};
    }
    case 4: {
      const auto v = static_cast<std::uint32_t>(r.edge(28));
      return {"write_uvarint", [=](auto& o, auto&) { mp4::bitio::write_uvarint<std::uint32_t>(&o, v); }};
    }
    case 5: {
      const Bytes b = raw(r.below(300));
      return {"write_vector_uint", [=](auto& o, auto&) { mp4::bitio::write_vector_uint<std::uint8_t>(&o, b); }};
    }
    case 6: {
      auto c = std::make_shared<BoxCase>(gen_box(r));
      return {"box " + c->variant, [=](auto&, auto& os) {
                std::unique_ptr<mp4::Box> b(c->make());
                b->writeData(os);
              }};
    }
    default: {
      const Bytes b = raw(r.range(1, 300));
      return {"write", [=](auto& o, auto&) { o.write(b); }};
    }
  }
}

void write_parts(Ctx& ctx, Rng& r) {
  std::vector<Op> ops;
  std::uint64_t bits = 0;
  std::string text;
  for (std::size_t i = r.range(1, 8); i > 0; --i) {
    ops.push_back(gen_write_op(r, bits));
    text += ops.back().name + " ";
  }
  auto run = [&](FaultyOut& buf, std::size_t* failed) {
    std::ostream os(&buf);
    mp4::bitio::Writer w(os);
    for (std::size_t i = 0; i < ops.size(); ++i) {
      buf.step = std::to_string(i);
      try {
        ops[i].write(w, os);
      } catch (const std::exception&) {
        *failed = i;
        return true;
      }
    }
    return false;
  };
  FaultyOut whole;
  std::size_t failed = 0;
  if (!ctx.check(!run(whole, &failed), "spurious.part", [&] { return "nothing failed, but this was refused: " + ops[failed].name; })) return;
  ctx.count("part_sequences");
  if (whole.ops == 0) return;
  for (unsigned i = 0; i < 12; ++i) {
    FaultyOut buf;
    buf.mode = r.chance(1, 3) ? Mode::budget : r.chance(1, 4) ? Mode::raise : Mode::fail;
    buf.stay = r.flag();
    buf.at = buf.mode == Mode::budget ? r.below(whole.data.size()) : r.below(whole.ops);
    const bool threw = run(buf, &failed);
    if (buf.fired) ctx.count("faults.part-output");
    ctx.check(threw == buf.fired && (!buf.fired || std::to_string(failed) == buf.fired_in), "silent.part-output", [&] {
      return fmt::format("of {}the output failed in call {}, {}", text, buf.fired_in, threw ? "reported in call " + std::to_string(failed) : "not reported");
    });
    if (!threw) ctx.check(buf.data == whole.data, "different.part-output", [&] { return text + ": " + diff_bytes(buf.data, whole.data); });
  }
}

void read_parts(Ctx& ctx, Rng& r) {
  // a payload, read as a box, as bits, as bytes or as a header
  const BoxCase c = gen_box(r);
  Bytes b = c.payload;
  const unsigned form = static_cast<unsigned>(r.below(4));
  const std::size_t head = r.below(20);
  if (form == 1 || form == 2) b.insert(b.begin(), head, 0x5a);
  if (form == 3) {
    Enc e;
    switch (r.below(3)) {
      case 0: e.u32(8 + b.size()).raw(c.type); break;
      case 1: e.u32(1).raw(c.type).u64(16 + b.size()); break;
      default: e.u32(0).raw(c.type);
    }
    e.raw(b);
    b = e.b;
  }
  if (b.empty() || b.size() > 5000) return;
  const std::uint64_t width = r.range(1, 64);
  auto run = [&](FaultyIn& in, std::string* out) {
    std::istream is(&in);
    try {
      std::ostringstream os;
      if (form == 0) {
        thread_local mp4::BoxMap* map = [] {
          auto m = new mp4::BoxMap();
          mp4::register_box_map(m);
          return m;
        }();
        std::unique_ptr<mp4::Box> box(map->getBoxInstance(mp4::BoxType(c.type)));
        os << box->readData(is) << " " << box->toStringOnlyData();
      } else if (form == 3) {
        std::unique_ptr<mp4::BoxHeader> h(mp4::read_box_header(is));
        os << h->toString() << " " << h->getHeaderSize();
        h->seekToData(is);
        os << " " << in.where();
        h->seekToEnd(is);
        os << " " << in.where();
      } else {
        mp4::bitio::Reader reader(is);
        Bytes got(head);
        os << reader.read(&got) << hex(got) << reader.seek(head / 2, std::ios_base::beg) << reader.seek(0, std::ios_base::cur);
        std::uint64_t left = (b.size() - head / 2) * 8;
        while (left >= width) {
          if (form == 1) {
            std::uint64_t v = 0;
            mp4::bitio::read_uint<std::uint64_t>(&reader, &v, width);
            os << v << " ";
          } else {
            std::vector<std::uint8_t> v;
            reader.readBits(&v, width);
            os << hex(v) << reader.readBit();
            if (left == width) break;
            --left;
          }
          left -= width;
        }
      }
      *out = os.str();
    } catch (const std::exception& e) {
      *out = e.what();
      return true;
    }
    return false;
  };
  FaultyIn whole(b);
  std::string want, got;
  const bool refused = run(whole, &want);
  // the last bit of odd widths may lie behind the end: any answer goes, as long as it is the same one
  ctx.count("part_inputs");
  for (unsigned i = 0; i < 12 && whole.ops; ++i) {
    FaultyIn in(b);
    in.mode = r.chance(1, 3) ? Mode::budget : r.chance(1, 4) ? Mode::raise : Mode::fail;
    in.stay = r.flag();
    in.at = in.mode == Mode::budget ? r.below(b.size()) : r.below(whole.ops);
    const bool threw = run(in, &got);
    if (in.fired) ctx.count("faults.part-input");
    ctx.check(threw || (!refused && got == want), "silent.part-input", [&] {
      return fmt::format("form {} of {} ({}), {} at {} of {}: read normally as {} instead of {}", form, as_string(c.type), b.size(),
                         in.mode == Mode::budget ? "short input" : "failure", in.at, whole.ops, got.substr(0, 200), want.substr(0, 200));
    });
    if (!in.fired) ctx.check(threw == refused, "spurious.part-input", [&] { return "nothing failed, but: " + got; });
  }
}

void c16(Ctx& ctx, Rng& r, std::uint64_t n) {
  ::signal(SIGXFSZ, SIG_IGN);
  for (unsigned i = 0; i < 4; ++i) {
    write_parts(ctx, r);
    read_parts(ctx, r);
  }
  if (n % 3 == 2)
    reader_case(ctx, r, n);
  else
    writer_case(ctx, r, n / 3 * 2 + n % 3);
  if (n < 2) ctx.sample("every run: either a step throws, or the output equals the one without faults");
}

Register reg("C16", c16);

}  // namespace
}  // namespace vh
