// C02 time and memory of parsing. Counts every allocation and every operation on the input stream.
#include <algorithm>
#include <iostream>
#include <memory>
#include <sstream>

#include "alloc.hpp"
#include "gen_util.hpp"
#include "mutate.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "tree.hpp"

namespace vh {
namespace {

// input without a get area: every character and every seek is an operation
class CountedIn : public std::streambuf {
 public:
  explicit CountedIn(const Bytes& b) : m_b(b) {}
  std::uint64_t ops = 0;

 protected:
  int_type underflow() override {
    ++ops;
    return m_pos < m_b.size() ? traits_type::to_int_type(static_cast<char>(m_b[m_pos])) : traits_type::eof();
  }
  int_type uflow() override {
    ++ops;
    return m_pos < m_b.size() ? traits_type::to_int_type(static_cast<char>(m_b[m_pos++])) : traits_type::eof();
  }
  std::streamsize xsgetn(char* p, std::streamsize n) override {
    ++ops;
    const std::size_t k = std::min<std::size_t>(static_cast<std::size_t>(n), m_b.size() - std::min(m_b.size(), m_pos));
    std::copy_n(reinterpret_cast<const char*>(m_b.data()) + m_pos, k, p);
    m_pos += k;
    return static_cast<std::streamsize>(k);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    ++ops;
    const off_type base = d == std::ios_base::beg ? 0 : static_cast<off_type>(d == std::ios_base::cur ? m_pos : m_b.size());
    if (base + o < 0 || base + o > static_cast<off_type>(m_b.size())) return pos_type(off_type(-1));
    m_pos = static_cast<std::size_t>(base + o);
    return pos_type(base + o);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

 private:
  const Bytes& m_b;
  std::size_t m_pos = 0;
};

class NullOut : public std::streambuf {
 public:
  std::uint64_t n = 0;

 protected:
  std::streamsize xsputn(const char*, std::streamsize k) override {
    n += static_cast<std::uint64_t>(k);
    return k;
  }
  int_type overflow(int_type c) override {
    ++n;
    return traits_type::not_eof(c);
  }
};

struct Use {
  std::uint64_t peak, total, allocs, ops, out, ns;
  bool ok;
};

mp4::BoxMap& box_map() {
  static mp4::BoxMap* map = [] {
    auto m = new mp4::BoxMap();
    mp4::register_box_map(m);
    return m;
  }();
  return *map;
}

template <typename F>
Use measure(const Bytes& in, F f) {
  CountedIn buf(in);
  NullOut out;
  std::istream is(&buf);
  std::ostream os(&out);
  const std::uint64_t live = g_live, total = g_total, allocs = g_allocs;
  g_peak = g_live;
  Use u{};
  const std::uint64_t start = cpu_ns();
  try {
    f(is, os);
    u.ok = true;
  } catch (const std::exception&) {
    u.ok = false;
  }
  u.ns = cpu_ns() - start;
  u.peak = g_peak - live;
  u.total = g_total - total;
  u.allocs = g_allocs - allocs;
  u.ops = buf.ops;
  u.out = out.n;
  return u;
}

Use read_box(const Type4& t, const Bytes& payload) {
  return measure(payload, [&](std::istream& is, std::ostream&) {
    std::unique_ptr<mp4::Box> b(box_map().getBoxInstance(mp4::BoxType(t)));
    b->readData(is);
  });
}

Use read_file_bytes(const Bytes& file) {
  return measure(file, [&](std::istream& is, std::ostream& os) {
    std::streambuf* old = std::cout.rdbuf(os.rdbuf());
    struct Back {
      std::streambuf* b;
      ~Back() { std::cout.rdbuf(b); }
    } back{old};
    mp4::reader::SimpleReader reader(is);
    reader.read();
  });
}

// The bounds: generous multiples of what the library needs today (see DESIGN.md), far below what one invented
// element count costs.
struct Bound {
  std::uint64_t per_byte, base;
  std::uint64_t of(std::uint64_t n) const { return per_byte * n + base; }
};
constexpr Bound kBoxPeak{80, 24 << 10}, kBoxOps{6, 200}, kBoxTotal{150, 64 << 10};
constexpr Bound kFilePeak{1000, 1 << 20}, kFileOps{300, 2000}, kFileTotal{20000, 4 << 20};
// processor time, in nanoseconds: more than fifty times what is needed on an idle machine
constexpr Bound kBoxTime{20000, 1000000000}, kFileTime{50000, 1000000000};

void judge(Ctx& ctx, const std::string& what, const std::string& key, std::size_t n, const Use& u, bool file) {
  const Bound &p = file ? kFilePeak : kBoxPeak, &o = file ? kFileOps : kBoxOps, &t = file ? kFileTotal : kBoxTotal, &c = file ? kFileTime : kBoxTime;
  const char* f = file ? "file" : "box";
  const std::uint64_t pm = u.peak > p.base ? (u.peak - p.base) * 1000 / (p.per_byte * (n + 1)) : 0;
  const std::uint64_t om = u.ops > o.base ? (u.ops - o.base) * 1000 / (o.per_byte * (n + 1)) : 0;
  const std::uint64_t tm = u.total > t.base ? (u.total - t.base) * 1000 / (t.per_byte * (n + 1)) : 0;
  if (ctx.verbose && (pm > 300 || om > 300 || tm > 300))
    std::printf("%s n=%zu peak=%llu ops=%llu total=%llu out=%llu\n", what.c_str(), n, (unsigned long long)u.peak,
                (unsigned long long)u.ops, (unsigned long long)u.total, (unsigned long long)u.out);
  if (key.empty()) {
    ctx.maxi(std::string(f) + "_peak_permille_of_bound", pm);
    ctx.maxi(std::string(f) + "_ops_permille_of_bound", om);
    ctx.maxi(std::string(f) + "_total_permille_of_bound", tm);
    ctx.maxi(std::string(f) + "_nanoseconds_per_byte", n < 10000 ? 0 : u.ns / n);
    ctx.maxi(std::string(f) + "_microseconds", u.ns / 1000);
  }
  ctx.maxi(std::string(f) + "_bytes", n);
  ctx.count(std::string(f) + (u.ok ? "_accepted" : "_refused"));
  const auto msg = [&](const char* q, std::uint64_t got, std::uint64_t most) {
    return strf("%s: %zu bytes of input cost %llu %s, bound %llu", what.c_str(), n, (unsigned long long)got, q, (unsigned long long)most);
  };
  if (ctx.case_no % 50 < 8 && n > 1000)
    ctx.sample(strf("%s: %zu bytes, %llu held at most, %llu allocated, %llu input operations, %llu us, %s", what.substr(0, 80).c_str(), n,
                    (unsigned long long)u.peak, (unsigned long long)u.total, (unsigned long long)u.ops, (unsigned long long)u.ns / 1000,
                    u.ok ? "accepted" : "refused"));
  ctx.check(u.peak <= p.of(n), key.empty() ? "memory" : key, [&] { return msg("bytes of memory at once", u.peak, p.of(n)); });
  ctx.check(u.ops <= o.of(n), key.empty() ? "reads" : key, [&] { return msg("operations on the input", u.ops, o.of(n)); });
  ctx.check(u.ns <= c.of(n), key.empty() ? "time" : key, [&] { return msg("nanoseconds of processor time", u.ns, c.of(n)); });
  ctx.check(u.total <= t.of(n), key.empty() ? "work" : key, [&] { return msg("bytes of allocations in total", u.total, t.of(n)); });
}

void put(Bytes& b, std::size_t at, unsigned w, std::uint64_t v) {
  for (unsigned i = 0; i < w; ++i)
    if (at + i < b.size()) b[at + i] = static_cast<std::uint8_t>(v >> (8 * (w - 1 - i)));
}

Bytes boxed(const Type4& t, const Bytes& p) {
  Enc e;
  e.u32(p.size() + 8).raw(t).raw(p);
  return e.b;
}

std::string where(const Type4& t, const Bytes& p) { return as_string(t) + " " + hex(p, 40); }

// large inputs of one shape, scaled by n
Bytes family(Rng& r, unsigned which, std::size_t n, std::string& name) {
  Bytes out;
  switch (which) {
    case 0: {  // many small boxes side by side
      name = "siblings";
      while (out.size() < n) {
        BoxCase c = gen_box(r);
        if (c.payload.size() > 4000) continue;
        if (c.type == t4("trun")) tame_trun(c.payload, false);
        const Bytes b = boxed(c.type, c.payload);
        out.insert(out.end(), b.begin(), b.end());
      }
      break;
    }
    case 1: {  // one large payload below many containers
      name = "deep-large";
      out = boxed(t4("mdat"), r.bytes(n));
      const std::size_t d = r.range(40, 62);
      for (std::size_t i = 0; i < d; ++i) out = boxed(t4(i % 2 ? "moov" : "trak"), out);
      break;
    }
    case 2: {  // many small boxes below many containers
      name = "deep-many";
      while (out.size() < n) {
        const Bytes b = boxed(t4(r.flag() ? "free" : "moov"), {});
        out.insert(out.end(), b.begin(), b.end());
      }
      const std::size_t d = r.range(20, 60);
      for (std::size_t i = 0; i < d; ++i) out = boxed(t4("udta"), out);
      break;
    }
    case 3: {  // large tables
      name = "tables";
      BigLists big;
      while (out.size() < n) {
        BoxCase c = gen_kind(r.pick(std::vector<std::string>{"stco", "co64", "stsz", "stts", "stsc", "stss", "ctts", "sidx", "sbgp", "sdtp", "opaque"}), r);
        const Bytes b = boxed(c.type, c.payload);
        out.insert(out.end(), b.begin(), b.end());
      }
      break;
    }
    case 4: {  // a payload of random bytes for any type
      const auto& k = kinds()[r.below(kinds().size())];
      BoxCase c = k.gen(r);
      name = "random-" + as_string(c.type);
      Bytes p = c.payload;
      p.resize(std::min<std::size_t>(p.size(), 16));
      const Bytes x = r.bytes(n);
      const bool same = r.chance(1, 2);
      p.insert(p.end(), x.begin(), x.end());
      if (same)
        std::fill(p.begin() + static_cast<long>(p.size() - n), p.end(), r.pick(std::vector<std::uint8_t>{0, 1, 0x61, 0xff}));
      for (const auto& f : c.counts) put(p, f.offset, f.bytes, r.flag() ? ~0ULL : n / std::max<std::size_t>(1, f.element));
      out = boxed(c.type, p);
      tame_trun(out, true);
      break;
    }
    case 5: {  // boxes without bytes between them, to the end of the file
      name = "empty-boxes";
      const Bytes b = boxed(t4("free"), {});
      while (out.size() < n) out.insert(out.end(), b.begin(), b.end());
      break;
    }
    default: {
      name = "comb";  // every container holds one leaf and the next container
      for (unsigned i = 0; i < 62; ++i) {
        const Bytes leaf = boxed(t4("free"), r.bytes(n / 62));
        out.insert(out.end(), leaf.begin(), leaf.end());
        out = boxed(t4("moov"), out);
      }
    }
  }
  return out;
}

void c02(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (n == 0) {
    // the one known way to spend memory on elements that are not there: elements without any field
    const std::size_t counts[] = {1u << 22};
    for (std::size_t k : counts) {
      Enc e;
      e.full(0, 0).u32(k);
      judge(ctx, "trun without per-sample fields announcing " + std::to_string(k) + " samples", "trun-no-fields", e.b.size(),
            read_box(t4("trun"), e.b), false);
    }
    return;
  }
  if (n <= 8 || (ctx.tier != "quick" && n <= 80)) {  // eight times the input takes about eight times as long
    const unsigned which = static_cast<unsigned>((n - 1) % 8);
    const std::size_t size = (ctx.tier == "quick" ? 200000 : 400000) + r.below(50000);
    std::string name;
    const auto input = [&](std::size_t k) {
      Rng q(ctx.seed * 1000 + n);
      if (which < 7) return family(q, which == 4 ? 0 : which, k, name);
      name = "string";  // one long text
      Bytes p(24, 0);
      p.insert(p.end(), k, 'a');
      return boxed(t4("hdlr"), p);
    };
    const Bytes small = input(size), large = input(8 * size);
    const auto time = [&](const Bytes& b, int times) {
      std::uint64_t best = ~0ULL;
      for (int i = 0; i < times; ++i) best = std::min(best, read_file_bytes(b).ns);
      return best;
    };
    const double per = static_cast<double>(large.size()) / static_cast<double>(small.size());
    const std::uint64_t t1 = time(small, 3);
    const auto most = static_cast<std::uint64_t>(3.5 * per * static_cast<double>(t1)) + 500000000;
    std::uint64_t t2 = time(large, 1);
    if (t2 > most) t2 = std::min(t2, time(large, 2));
    ctx.count("growth_comparisons");
    ctx.maxi("growth_permille_of_bound", t2 * 1000 / most);
    ctx.sample(strf("%s: %zu bytes in %llu us, %zu bytes in %llu us", name.c_str(), small.size(), (unsigned long long)t1 / 1000, large.size(),
                    (unsigned long long)t2 / 1000));
    ctx.seen(name + std::to_string(large.size()));
    ctx.check(t2 <= most, "growth", [&] {
      return strf("%s: %zu bytes take %llu us, %zu bytes take %llu us: the time grows faster than the input", name.c_str(), small.size(),
                  (unsigned long long)t1 / 1000, large.size(), (unsigned long long)t2 / 1000);
    });
    return;
  }
  if (n % 100 == 50) {  // large
    std::string name;
    const std::size_t size = r.range(20000, ctx.tier == "quick" ? 400000 : 2000000);
    Bytes f = family(r, static_cast<unsigned>(n / 100 % 7), size, name);
    if (r.chance(1, 4)) mutate(r, f, static_cast<unsigned>(r.range(1, 3)));
    tame_trun(f, true);
    ctx.count("family." + name.substr(0, name.find('-')));
    ctx.seen(name + std::to_string(fnv(f.data(), f.size())));
    judge(ctx, "file of shape " + name, "", f.size(), read_file_bytes(f), true);
    return;
  }
  if (n % 100 == 75) {  // one box of any kind, and much more behind its payload
    const auto& k = kinds()[n / 100 % kinds().size()];
    const BoxCase c = k.gen(r);
    Bytes p = c.payload;
    if (r.chance(1, 3)) p.resize(r.below(p.size() + 1));
    const std::size_t size = r.range(20000, ctx.tier == "quick" ? 400000 : 3000000);
    switch (r.below(5)) {
      case 0: {
        const Bytes x = r.bytes(size);
        p.insert(p.end(), x.begin(), x.end());
        break;
      }
      case 1: p.insert(p.end(), size, 0); break;
      case 2: p.insert(p.end(), size, 0xff); break;
      case 3: p.insert(p.end(), size, 0x80); break;
      default: p.insert(p.end(), size, 'a');
    }
    if (!c.counts.empty() && r.flag()) {
      const auto& q = c.counts[r.below(c.counts.size())];
      put(p, q.offset, q.bytes, r.flag() ? ~0ULL : size / std::max<std::size_t>(1, q.element));
    }
    if (c.type == t4("trun")) tame_trun(p, false);
    ctx.count("large_boxes");
    ctx.seen(as_string(c.type) + std::to_string(fnv(p.data(), p.size())));
    judge(ctx, "large " + where(c.type, p), "", p.size(), read_box(c.type, p), false);
    return;
  }
  if (n % 10 == 3) {
    TreeOptions o;
    o.forms = r.flag();
    o.unknown = r.flag();
    o.quicktime = r.flag();
    auto f = gen_forest(r, o);
    for (auto& x : refs(f)) {
      if (!x.node->c.counts.empty() && r.chance(1, 2)) {
        const auto& q = x.node->c.counts[r.below(x.node->c.counts.size())];
        put(x.node->c.payload, q.offset, q.bytes, r.flag() ? ~0ULL : r.next());
        ctx.count("inflated_counts");
      }
    }
    layout(f, 0);
    for (int i = 0; i < 4; ++i) {
      Bytes b = encode(f);
      if (i) mutate(r, b, static_cast<unsigned>(r.range(1, 4)));
      tame_trun(b, true);
      ctx.seen(std::to_string(fnv(b.data(), b.size())));
      judge(ctx, "file " + shape(f).substr(0, 100), "", b.size(), read_file_bytes(b), true);
    }
    return;
  }
  if (n % 10 == 7) {
    Bytes b = r.flag() ? random_soup(r) : deep_chain(r);
    tame_trun(b, true);
    ctx.seen(std::to_string(fnv(b.data(), b.size())));
    judge(ctx, "random boxes", "", b.size(), read_file_bytes(b), true);
    return;
  }
  const auto& k = kinds()[n % kinds().size()];
  for (int i = 0; i < 8; ++i) {
    const BoxCase c = k.gen(r);
    Bytes p = c.payload;
    // every count of the box in turn, then fields at random
    if (!c.counts.empty() && i < 5) {
      const auto& q = c.counts[static_cast<std::size_t>(i) % c.counts.size()];
      const std::uint64_t v = i == 0 ? ~0ULL : i == 1 ? 0x7fffffff : i == 2 ? 1ULL << (8 * q.bytes - 1) : r.next();
      put(p, q.offset, q.bytes, v);
      ctx.count("inflated_counts");
    } else if (p.size() > 4 && i < 7) {
      put(p, r.below(p.size() - 3), r.flag() ? 4 : 2, ~0ULL);
      if (r.flag()) mutate(r, p, 1);
    } else {
      mutate(r, p, static_cast<unsigned>(r.below(4)));
    }
    if (c.type == t4("trun")) tame_trun(p, false);
    ctx.seen(as_string(c.type) + std::to_string(fnv(p.data(), p.size())));
    judge(ctx, where(c.type, p), "", p.size(), read_box(c.type, p), false);
  }
}

Register reg("C02", c02);

}  // namespace
}  // namespace vh
