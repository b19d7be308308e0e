// C17 memory, descriptors and files after everything has been destroyed.
#include <fcntl.h>
#include <fmt/format.h>
#include <sanitizer/allocator_interface.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

#include "gen_util.hpp"
#include "mutate.hpp"
#include "scenario.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "sparse.hpp"
#include "tree.hpp"

namespace {
int g_fail = 0;  // which call of the constructor of the faststart writer fails
}
extern "C" {
FILE* __real_fdopen(int, const char*);
FILE* __wrap_fdopen(int fd, const char* m) {
  if (g_fail == 1) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_fdopen(fd, m);
}
int __real_mkstemp(char*);
int __wrap_mkstemp(char* t) {
  if (g_fail == 2) {
    errno = EMFILE;
    return -1;
  }
  return __real_mkstemp(t);
}
}

namespace vh {
namespace {
namespace fs = std::filesystem;

std::size_t open_fds() {
  std::size_t n = 0;
  for (const auto& e : fs::directory_iterator("/proc/self/fd")) {
    (void)e;
    ++n;
  }
  return n;
}

std::set<std::string> names(const std::string& dir) {
  std::set<std::string> s;
  for (const auto& e : fs::recursive_directory_iterator(dir)) s.insert(e.path().string());
  return s;
}

// an output failing at one operation
class FailingBuf : public MemBuf {
 public:
  std::uint64_t ops = 0, at = ~0ULL;
  bool raise = false;

 protected:
  bool fault() {
    if (ops++ != at) return false;
    if (raise) throw std::runtime_error("the device failed");
    return true;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override { return fault() ? 0 : MemBuf::xsputn(p, n); }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override {
    return fault() ? pos_type(off_type(-1)) : MemBuf::seekoff(o, d, m);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return FailingBuf::seekoff(off_type(p), std::ios_base::beg, m); }
};

class NullOut : public std::streambuf {
 protected:
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
  int_type overflow(int_type c) override { return traits_type::not_eof(c); }
};

// what is kept alive by running f: repeated, so that caches filled once do not count
void repeat(Ctx& ctx, const std::string& kind, const std::function<std::string()>& what, const std::function<void()>& f) {
  f();
  std::int64_t least = INT64_MAX;
  const std::size_t fds = open_fds();
  constexpr int kRuns = 3;
  for (int i = 0; i < kRuns; ++i) {
    const auto a = static_cast<std::int64_t>(__sanitizer_get_current_allocated_bytes());
    f();
    const auto b = static_cast<std::int64_t>(__sanitizer_get_current_allocated_bytes());
    least = std::min(least, b - a);
  }
  ctx.count(kind);
  ctx.count("runs", kRuns + 1);
  ctx.check(least <= 0, "memory." + kind, [&] { return fmt::format("{}: every run leaves {} bytes allocated | {}", kind, least, what()); });
  const std::size_t now = open_fds();
  ctx.check(now <= fds, "descriptors." + kind, [&] { return fmt::format("{}: {} runs leave {} descriptors open | {}", kind, kRuns, now - fds, what()); });
}

void read_quietly(const Bytes& b) {
  const std::string str(b.begin(), b.end());
  std::istringstream is(str);
  NullOut null;
  std::streambuf* old = std::cout.rdbuf(&null);
  try {
    mp4::reader::SimpleReader reader(is);
    reader.read();
  } catch (const std::exception&) {
  }
  std::cout.rdbuf(old);
}

struct Stop {};

void files_case(Ctx& ctx, Rng& r, std::uint64_t n) {
  const bool damaged = n % 2;
  Bytes b;
  std::string what;
  if (damaged && r.chance(1, 3)) {
    b = r.flag() ? random_soup(r) : deep_chain(r);
    what = "random boxes";
  } else {
    TreeOptions o;
    o.forms = r.flag();
    o.unknown = r.flag();
    o.quicktime = r.flag();
    auto f = gen_forest(r, o);
    if (damaged)
      for (auto& x : refs(f))
        if (r.chance(1, 6)) mutate(r, x.node->c.payload, 1);
    layout(f, 0);
    b = encode(f);
    if (damaged) mutate(r, b, static_cast<unsigned>(r.below(3)));
    what = shape(f);
  }
  tame_trun(b, true);
  ctx.seen(what + std::to_string(fnv(b.data(), b.size())));
  repeat(ctx, damaged ? "damaged_files" : "files", [&] { return what; }, [&] { read_quietly(b); });
}

void boxes_case(Ctx& ctx, Rng& r, std::uint64_t n) {
  const auto& k = kinds()[n % kinds().size()];
  const BoxCase c = k.gen(r);
  Bytes p = c.payload;
  mutate(r, p, static_cast<unsigned>(r.below(3)));
  if (c.type == t4("trun")) tame_trun(p, false);
  const bool header = r.flag(), again = r.flag();
  ctx.seen(as_string(c.type) + std::to_string(fnv(p.data(), p.size())));
  repeat(ctx, "boxes", [&] { return as_string(c.type) + " " + hex(p, 60); }, [&] {
    mp4::BoxMap map;
    mp4::register_box_map(&map);
    std::unique_ptr<mp4::Box> b(header ? map.getBoxInstance(new mp4::BoxHeader({.offset = 0, .size = p.size() + 8, .type = mp4::BoxType(c.type)}))
                                       : map.getBoxInstance(mp4::BoxType(c.type)));
    for (int i = 0; i < (again ? 2 : 1); ++i) {
      std::istringstream is(std::string(p.begin(), p.end()));
      try {
        b->readData(is);
        (void)b->toString();
        NullOut null;
        std::ostream os(&null);
        b->writeData(os);
      } catch (const std::exception&) {
      }
    }
    if (header && again) b->setHeader(nullptr);
    else if (header) b->setHeader(new mp4::BoxHeader({.offset = 8, .size = p.size() + 8, .type = mp4::BoxType(c.type)}));
    std::unique_ptr<mp4::Box> v(c.make());
    v->setOffsetAndDataSize(0, v->getDataSize());
    FailingBuf out;
    out.at = again ? 1 : ~0ULL;
    std::ostream os(&out);
    os.exceptions(std::ios_base::badbit);
    try {
      v->write(os);
    } catch (const std::exception&) {
    }
  });
}

mp4::BoxInfo* build(const Node& n, mp4::BoxInfo* parent) {
  auto info = new mp4::BoxInfo({.parent = parent, .box = n.c.make()});
  for (const auto& k : n.kids) build(k, info);
  return info;
}

void trees_case(Ctx& ctx, Rng& r, std::uint64_t) {
  TreeOptions o;
  std::vector<Node> f;
  do f = gen_forest(r, o);
  while (f.empty());
  const Node& root = f[0];
  std::uint64_t ops = 0;
  const auto run = [&](std::uint64_t at) {
    std::unique_ptr<mp4::BoxInfo> info(build(root, nullptr));
    info->adjustOffsetAndSize(0);
    (void)info->toString();
    info->adjustOffsetAndSize(100);
    FailingBuf buf;
    buf.at = at;
    std::ostream os(&buf);
    try {
      info->write(os);
    } catch (const std::exception&) {
    }
    ops = buf.ops;
  };
  run(~0ULL);
  const std::uint64_t at = r.chance(1, 3) ? ~0ULL : r.below(ops);
  ctx.seen(shape(f) + std::to_string(at));
  repeat(ctx, "trees", [&] { return shape(f); }, [&] { run(at); });
}

void recordings_case(Ctx& ctx, Rng& r, std::uint64_t n) {
  SpecOptions so;
  so.max_samples = static_cast<unsigned>(r.range(0, 20));
  so.max_size = r.chance(1, 4) ? 6000 : 200;
  Spec s = gen_spec(r, so);
  s.faststart = r.chance(2, 3);
  const std::string dir = ctx.scratch + "/rec";
  fs::create_directories(dir);
  s.path_template = ctx.named(dir + "/mdatXXXXXX");
  if (s.faststart && s.path_template[0] != '/') ctx.count("relative_templates");
  enum { complete, failing, abandoned, sets, broken_file } mode =
      n % 5 == 0 ? complete : n % 5 == 1 ? failing : n % 5 == 2 ? abandoned : n % 5 == 3 ? sets : broken_file;
  if (mode == sets) {  // more parameter sets than the configuration box can hold, and damaged streams
    const std::size_t i = s.tracks.size();
    TrackSpec t;
    t.kind = Kind7::H264;
    t.timescale = 90000;
    s.tracks.push_back(t);
    s.append.push_back(i);
    const bool pps = r.flag();
    const std::size_t count = pps ? r.range(250, 260) : r.range(28, 36);
    Call c;
    c.track = i;
    for (std::size_t k = 0; k < count; ++k) {
      Bytes u = gen_nal(r, pps ? 8 : 7, 20);
      u.push_back(static_cast<std::uint8_t>(1 + k % 255));
      u.push_back(static_cast<std::uint8_t>(0x41 + k / 255));
      c.nals.push_back({u, r.flag()});
    }
    c.data = annexb(c.nals);
    if (r.chance(1, 3)) c.data.resize(r.below(c.data.size()));
    s.calls.push_back(c);
  }
  fit_durations(s);
  std::uint64_t ops = 0, stages = 0;
  {
    FailingBuf buf;
    std::ostream os(&buf);
    try {
      execute(s, os, [&](const char*, mp4::writer::Writer*) { ++stages; });
    } catch (const std::exception&) {
    }
    ops = buf.ops;
  }
  for (const auto& f : names(dir)) fs::remove(f);
  const std::uint64_t at = mode == failing && ops ? r.below(ops) : ~0ULL;
  const std::uint64_t stop = mode == abandoned || mode == broken_file ? r.below(stages + 1) : ~0ULL;
  const bool raise = r.chance(1, 4);
  // a caller that tidies up does so with what the writer offers
  std::uint64_t left = 0, foreign = 0, undeleted = 0, completed = 0, threw = 0;
  const auto run = [&] {
    std::string path;
    bool done = false;
    std::uint64_t k = 0;
    FailingBuf buf;
    buf.at = at;
    buf.raise = raise;
    {
      std::ostream os(&buf);
      try {
        execute(s, os, [&](const char* what, mp4::writer::Writer* w) {
          if (auto* f = dynamic_cast<mp4::writer::FaststartWriter*>(w)) {
            path = (fs::path(ctx.scratch) / f->getIntermediateFilePath()).lexically_normal().string();
            if (k == stop && mode == broken_file && std::string(what) != "copied") {
              ::truncate(path.c_str(), 0);
              for (const auto& e : fs::directory_iterator("/proc/self/fd")) {
                std::error_code ec;
                if (fs::read_symlink(e.path(), ec) == path) {
                  const int fd = std::stoi(e.path().filename().string()), null = ::open("/dev/null", O_RDONLY);
                  ::dup2(null, fd);
                  ::close(null);
                  break;
                }
              }
            }
            if (k == stop && mode == abandoned && std::string(what) != "copied" && (stop & 1)) f->deleteIntermediateFile();
          }
          if (k++ == stop && mode == abandoned) throw Stop();
        });
        done = true;
      } catch (const std::exception&) {
        ++threw;
      } catch (const Stop&) {
      }
    }
    completed += done;
    const auto after = names(dir);
    if (done) left += after.size();
    for (const auto& f : after)
      if (f != path) ++foreign;
    if (!path.empty() && !done && !(mode == abandoned && (stop & 1)) && after.size() > 1) ++undeleted;
    for (const auto& f : after) fs::remove(f);
  };
  ctx.seen(summary(s) + fmt::format("/{}/{}/{}", static_cast<int>(mode), at, stop));
  const char* const kindname[] = {"complete_recordings", "failing_recordings", "abandoned_recordings", "recordings_with_too_many_sets", "broken_intermediate_files"};
  repeat(ctx, kindname[mode], [&] { return summary(s) + fmt::format(" output operation {} stop {}", at, stop); }, run);
  ctx.count("completed", completed);
  ctx.count("ended_by_exception", threw);
  ctx.check(left == 0, "file-left", [&] { return fmt::format("a completed recording leaves files behind: {} | {}", left, summary(s)); });
  ctx.check(foreign == 0 && undeleted == 0, "unknown-file", [&] { return fmt::format("files other than the intermediate file are left behind | {}", summary(s)); });
}

void constructors_case(Ctx& ctx, Rng& r, std::uint64_t) {
  const std::string dir = ctx.scratch + "/ctor";
  fs::create_directories(dir);
  g_fail = static_cast<int>(r.below(4));
  const std::string tmpl = ctx.named(g_fail == 0 ? dir + "/no/such/mdatXXXXXX" : g_fail == 3 ? dir + "/mdat" : dir + "/mdatXXXXXX");
  const int how = g_fail;
  std::uint64_t made = 0;
  repeat(ctx, "failing_constructors", [&] { return "way " + std::to_string(how); }, [&] {
    MemBuf buf;
    std::ostream os(&buf);
    try {
      mp4::writer::FaststartWriter w(os, {.duration = 1.0f, .mdat_path_templete = tmpl});
      ++made;
    } catch (const std::exception&) {
    }
  });
  g_fail = 0;
  ctx.count("constructor_made", made);
  const auto after = names(dir);
  ctx.check(after.empty() || made, "file-left", [&] { return "a writer that could not be constructed leaves " + *after.begin(); });
  for (const auto& f : after) fs::remove(f);
}

void c17(Ctx& ctx, Rng& r, std::uint64_t n) {
  switch (n % 8) {
    case 0:
    case 1: files_case(ctx, r, n); break;
    case 2: boxes_case(ctx, r, n / 8); break;
    case 3: trees_case(ctx, r, n); break;
    case 4: n / 8 % 10 == 0 ? constructors_case(ctx, r, n) : boxes_case(ctx, r, n / 8 + 1); break;
    default: recordings_case(ctx, r, n / 8 * 3 + n % 8 - 5);
  }
  if (n < 1) ctx.sample("every operation is run four times; live heap bytes and open descriptors after each run are compared");
}

Register reg("C17", c17);

}  // namespace
}  // namespace vh
