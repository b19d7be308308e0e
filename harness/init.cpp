// C20, second part: nothing written or dumped depends on uninitialised memory. Runs under valgrind's memcheck, which
// tracks the definedness of every bit; every byte that leaves the library is checked, and branches on undefined values
// are counted.
#include <valgrind/memcheck.h>

#include <iostream>
#include <memory>
#include <sstream>

#include "mutate.hpp"
#include "scenario.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "sparse.hpp"
#include "tree.hpp"

namespace vh {
namespace {

namespace mp4 = shiguredo::mp4;

mp4::BoxMap& box_map() {
  static mp4::BoxMap m = [] {
    mp4::BoxMap x;
    mp4::register_box_map(&x);
    return x;
  }();
  return m;
}

struct Watch {
  Ctx& ctx;
  std::string what;
  unsigned before;
  Watch(Ctx& c, std::string w) : ctx(c), what(std::move(w)) { before = VALGRIND_COUNT_ERRORS; }
  void branches() {
    const unsigned now = VALGRIND_COUNT_ERRORS;
    ctx.check(now == before, "undefined-branch", [&] { return strf("%s: %u decisions on undefined values", what.c_str(), now - before); });
    before = now;
  }
  void out(const void* p, std::size_t n, const char* which) {
    branches();
    const auto at = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
    ctx.check(at == 0, "undefined-output", [&] {
      return strf("%s: byte %llu of %zu of the %s is undefined", what.c_str(), static_cast<unsigned long long>(at) - reinterpret_cast<unsigned long long>(p), n, which);
    });
    ctx.count("bytes_checked", n);
    before = VALGRIND_COUNT_ERRORS;
  }
  void text(const std::string& s) { out(s.data(), s.size(), "dump"); }
  void bytes(const Bytes& b) { out(b.data(), b.size(), "bytes written"); }
  template <typename T>
  void value(const T& v, const char* which) {
    out(&v, sizeof v, which);
  }
  ~Watch() { branches(); }
};

void use(Watch& w, mp4::Box& b) {
  const std::string text = b.toStringOnlyData();
  std::ostringstream os;
  b.writeData(os);
  const std::string data = os.str();
  const auto size = b.getDataSize();
  w.text(text);
  w.out(data.data(), data.size(), "payload written");
  w.value(size, "size");
}

void c20i(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (!RUNNING_ON_VALGRIND) {
    ctx.fail("setup", "this part has to run under valgrind");
    return;
  }
  switch (n % 4) {
    case 0: {  // boxes from values
      const auto& k = kinds()[n / 4 % kinds().size()];
      for (int i = 0; i < 6; ++i) {
        const BoxCase c = k.gen(r);
        if (c.payload.size() > 20000) continue;
        Watch w(ctx, std::string("a box made from values: ") + k.name);
        std::unique_ptr<mp4::Box> b(c.make());
        use(w, *b);
        ctx.count("boxes_from_values");
      }
      break;
    }
    case 1: {  // boxes from bytes, also damaged ones
      const auto& k = kinds()[n / 4 % kinds().size()];
      for (int i = 0; i < 10; ++i) {
        const BoxCase c = k.gen(r);
        if (c.payload.size() > 20000) continue;
        Bytes p = c.payload;
        if (i > 1) mutate(r, p, static_cast<unsigned>(r.range(1, 4)));
        if (c.type == t4("trun")) tame_trun(p, false);
        Watch w(ctx, std::string("a box read from ") + (i > 1 ? "damaged " : "") + "bytes: " + k.name + " " + hex(p, 40));
        std::unique_ptr<mp4::Box> b;
        b.reset(box_map().getBoxInstance(mp4::BoxType(c.type)));
        auto* hh = new mp4::BoxHeader({.offset = 0, .size = p.size() + 8, .header_size = 8, .type = mp4::BoxType(c.type)});
        b->setHeader(hh);
        const std::string with = std::string(8, 'h') + std::string(p.begin(), p.end());
        std::istringstream is(with);
        is.seekg(8);
        try {
          const auto bits = b->readData(is);
          w.value(bits, "size consumed");
        } catch (const std::exception& e) {
          const std::string m = e.what();
          w.out(m.data(), m.size(), "error message");
          ctx.count("boxes_refused");
          continue;
        }
        use(w, *b);
        ctx.count(i > 1 ? "boxes_from_damaged_bytes" : "boxes_from_bytes");
      }
      break;
    }
    case 2: {  // files
      TreeOptions o;
      o.forms = o.unknown = o.quicktime = r.flag();
      o.max_nodes = 15;
      Bytes b = encode(gen_forest(r, o));
      if (b.size() > 40000) break;
      for (int i = 0; i < 4; ++i) {
        Bytes f = b;
        if (i) mutate(r, f, static_cast<unsigned>(r.range(1, 4)));
        tame_trun(f, true);
        Watch w(ctx, "a file");
        const Dump d = read_and_dump(f);
        w.text(d.text);
        w.text(d.error);
        ctx.count(d.ok ? "files_accepted" : "files_refused");
      }
      break;
    }
    default: {  // recordings
      SpecOptions o;
      o.max_samples = 8;
      o.max_size = 40;
      Spec s = gen_spec(r, o);
      fit_durations(s);
      s.faststart = n / 4 % 2 == 1;
      s.path_template = ctx.scratch + "/mdatXXXXXX";
      MemBuf buf;
      {
        Watch w(ctx, (s.faststart ? "faststart: " : "simple: ") + summary(s));
        std::ostream os(&buf);
        std::string error;
        try {
          execute(s, os);
        } catch (const std::exception& e) {
          error = e.what();
        }
        w.bytes(buf.data);
        ctx.count(error.empty() ? (s.faststart ? "faststart" : "simple") : "recordings_failed");
      }
      if (r.chance(1, 3)) {
        Watch w(ctx, "the dump of a recording");
        const Dump d = read_and_dump(buf.data);
        w.text(d.text);
      }
    }
  }
  ctx.seen(std::to_string(n) + "-" + std::to_string(r.s));
}

Register reg("C20I", c20i);

}  // namespace
}  // namespace vh
