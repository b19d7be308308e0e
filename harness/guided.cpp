// Coverage-guided exploration of the box parsers and of the file reader: inputs that reach code, or loop counts, no
// earlier input of the case reached are kept and damaged further. The library is compiled with coverage counters and
// with the operands of its comparisons reported (config "cov"); this file is not.
// C01V: sanitizers only. C04V: what was accepted is written, and has to be read back as the same.
#include <algorithm>
#include <cstdint>
#include <memory>
#include <sstream>

#include "gen_util.hpp"
#include "mutate.hpp"
#include "scenario.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "sparse.hpp"
#include "tree.hpp"

namespace {
struct Region {
  std::uint8_t *from, *to;
};
Region g_regions[64];
std::size_t g_nregions = 0;
// operands seen by comparisons of the library
struct Operand {
  std::uint64_t value;
  unsigned bytes;
};
Operand g_ops[1024];
std::uint64_t g_nops = 0;
bool g_trace = false;
inline void note(std::uint64_t v, unsigned bytes) {
  if (!g_trace || v <= 1) return;
  g_ops[g_nops++ % 1024] = {v, bytes};
}
}  // namespace

#define NOSAN __attribute__((no_sanitize("address", "undefined")))
extern "C" {
NOSAN void __sanitizer_cov_8bit_counters_init(char* from, char* to) {
  for (std::size_t i = 0; i < g_nregions; ++i)
    if (g_regions[i].from == reinterpret_cast<std::uint8_t*>(from)) return;
  if (g_nregions < 64 && from != to) g_regions[g_nregions++] = {reinterpret_cast<std::uint8_t*>(from), reinterpret_cast<std::uint8_t*>(to)};
}
NOSAN void __sanitizer_cov_trace_cmp1(std::uint8_t a, std::uint8_t b) { note(a, 1), note(b, 1); }
NOSAN void __sanitizer_cov_trace_cmp2(std::uint16_t a, std::uint16_t b) { note(a, 2), note(b, 2); }
NOSAN void __sanitizer_cov_trace_cmp4(std::uint32_t a, std::uint32_t b) { note(a, 4), note(b, 4); }
NOSAN void __sanitizer_cov_trace_cmp8(std::uint64_t a, std::uint64_t b) { note(a, 8), note(b, 8); }
NOSAN void __sanitizer_cov_trace_const_cmp1(std::uint8_t a, std::uint8_t) { note(a, 1); }
NOSAN void __sanitizer_cov_trace_const_cmp2(std::uint16_t a, std::uint16_t) { note(a, 2); }
NOSAN void __sanitizer_cov_trace_const_cmp4(std::uint32_t a, std::uint32_t) { note(a, 4); }
NOSAN void __sanitizer_cov_trace_const_cmp8(std::uint64_t a, std::uint64_t) { note(a, 8); }
NOSAN void __sanitizer_cov_trace_switch(std::uint64_t, std::uint64_t* c) {
  for (std::uint64_t i = 0; i < c[0] && i < 32; ++i) note(c[2 + i], static_cast<unsigned>(c[1] / 8));
}
}

namespace vh {
namespace {

struct Coverage {
  std::vector<std::uint8_t> seen;  // per counter, the loop-count classes reached
  std::size_t edges = 0, classes = 0;

  static std::size_t size() {
    std::size_t n = 0;
    for (std::size_t i = 0; i < g_nregions; ++i) n += static_cast<std::size_t>(g_regions[i].to - g_regions[i].from);
    return n;
  }
  static void clear() {
    for (std::size_t i = 0; i < g_nregions; ++i) std::memset(g_regions[i].from, 0, static_cast<std::size_t>(g_regions[i].to - g_regions[i].from));
  }
  // true when the last execution reached something new
  bool merge() {
    bool fresh = false;
    std::size_t at = 0;
    if (seen.empty()) seen.assign(size(), 0);
    for (std::size_t i = 0; i < g_nregions; ++i)
      for (const std::uint8_t* p = g_regions[i].from; p != g_regions[i].to; ++p, ++at) {
        if (*p == 0) continue;
        const std::uint8_t c = *p == 1 ? 1 : *p == 2 ? 2 : *p == 3 ? 4 : *p < 8 ? 8 : *p < 16 ? 16 : *p < 32 ? 32 : *p < 128 ? 64 : 128;
        if ((seen[at] & c) == 0) {
          if (seen[at] == 0) ++edges;
          ++classes;
          seen[at] |= c;
          fresh = true;
        }
      }
    return fresh;
  }
};

mp4::BoxMap& box_map() {
  static mp4::BoxMap* map = [] {
    auto m = new mp4::BoxMap();
    mp4::register_box_map(m);
    return m;
  }();
  return *map;
}

// replaces, or inserts, an operand some comparison saw
void mutate_operand(Rng& r, Bytes& b, bool keep_places = false) {
  if (!g_nops) return;
  const Operand o = g_ops[r.below(std::min<std::uint64_t>(g_nops, 1024))];
  std::uint64_t v = o.value;
  if (r.chance(1, 3)) v += r.below(3) - 1;
  unsigned w = r.chance(2, 3) ? o.bytes : 1u << r.below(4);
  while (w > 1 && r.chance(1, 4) && (v >> (4 * w)) == 0) w /= 2;
  Bytes x(w);
  const bool little = r.chance(1, 8);  // type codes compared as one word
  for (unsigned i = 0; i < w; ++i) x[i] = static_cast<std::uint8_t>(v >> (8 * (little ? i : w - 1 - i)));
  if (b.size() >= w && r.chance(5, 6)) {
    std::copy(x.begin(), x.end(), b.begin() + static_cast<long>(r.below(b.size() - w + 1)));
  } else if (!keep_places) {
    b.insert(b.begin() + static_cast<long>(r.below(b.size() + 1)), x.begin(), x.end());
  }
}

template <typename Run>
void explore(Ctx& ctx, Rng& r, std::vector<Bytes> corpus, std::size_t max_size, std::uint64_t executions, const Run& run) {
  Coverage cov;
  g_nops = 0;
  const auto execute_one = [&](const Bytes& b) {
    Coverage::clear();
    g_trace = true;
    const bool ok = run(b);
    g_trace = false;
    ctx.count(ok ? "accepted" : "refused");
    return cov.merge();
  };
  for (const auto& b : corpus) execute_one(b);
  const std::size_t initial = cov.classes;
  for (std::uint64_t k = 0; k < executions; ++k) {
    // the newest inputs, which reached something new last, more often than the others
    const std::size_t n = corpus.size();
    Bytes b = corpus[r.flag() ? r.below(n) : n - 1 - r.below(std::min<std::size_t>(n, 16))];
    if (r.chance(1, 8)) {  // the front of one and the rest of another
      const Bytes& o = corpus[r.below(n)];
      b.resize(r.below(b.size() + 1));
      b.insert(b.end(), o.begin() + static_cast<long>(r.below(o.size() + 1)), o.end());
    }
    const unsigned edits = static_cast<unsigned>(1u << r.below(4));
    const bool keep_places = !b.empty() && r.flag();
    for (unsigned e = 0; e < edits; ++e) {
      if (keep_places) {
        const std::size_t at = r.below(b.size());
        if (r.flag()) b[at] = static_cast<std::uint8_t>(b[at] ^ (1U << r.below(8)));
        else if (r.chance(1, 3)) b[at] = r.u8();
        else mutate_operand(r, b, true);
      } else if (r.chance(1, 3)) mutate_operand(r, b);
      else mutate(r, b, 1);
    }
    if (b.size() > max_size) b.resize(max_size);
    ctx.seen(std::to_string(fnv(b.data(), b.size())));
    if (execute_one(b)) corpus.push_back(b);
  }
  ctx.count("executions", executions);
  ctx.count("corpus_added", corpus.size());
  ctx.count("coverage_gained", cov.classes - initial);
  ctx.maxi("edges_reached", cov.edges);
  ctx.maxi("edges_present", Coverage::size());
}

// one kind of box per case
void boxes(Ctx& ctx, Rng& r, std::uint64_t n, bool agree) {
  const auto& k = kinds()[n % kinds().size()];
  std::vector<Bytes> corpus{Bytes{}};
  Type4 type{};
  for (int i = 0; i < 6; ++i) {
    BoxCase c = k.gen(r);
    if (i == 0) type = c.type;
    if (c.type == type && c.payload.size() <= 600) corpus.push_back(c.payload);
  }
  ctx.count("kind." + std::string(k.name));
  const mp4::BoxType bt(type);
  const std::string name = as_string(type);
  explore(ctx, r, corpus, 700, ctx.tier == "thorough" ? 30000 : 3000, [&](const Bytes& given) {
    Bytes in = given;
    if (type == t4("trun")) tame_trun(in, false);
    std::unique_ptr<mp4::Box> b(box_map().getBoxInstance(bt));
    std::istringstream is(std::string(in.begin(), in.end()));
    std::uint64_t rbits = 0;
    try {
      rbits = b->readData(is);
    } catch (const std::exception&) {
      return false;
    }
    try {
      const std::string dump = b->toStringOnlyData();
      std::ostringstream os;
      const std::uint64_t size = b->getDataSize();
      const std::uint64_t wbits = b->writeData(os);
      if (!agree) return true;
      const std::string w = os.str();
      const auto what = [&] { return name + " read from " + hex(in, 300) + ": "; };
      ctx.check(rbits <= 8 * in.size(), "guided-consumed", [&] { return what() + strf("%llu bits consumed", static_cast<unsigned long long>(rbits)); });
      ctx.check(wbits == 8 * w.size() && size == w.size(), "guided-size", [&] {
        return what() + strf("size %llu, %llu bits reported written, %zu bytes written", static_cast<unsigned long long>(size), static_cast<unsigned long long>(wbits), w.size());
      });
      std::unique_ptr<mp4::Box> c(box_map().getBoxInstance(bt));
      std::istringstream is2(w);
      std::uint64_t again = 0;
      std::string err;
      try {
        again = c->readData(is2);
      } catch (const std::exception& e) {
        err = e.what();
      }
      if (!ctx.check(err.empty(), "guided-reread", [&] { return what() + "written as " + hex(Bytes(w.begin(), w.end()), 300) + " it is refused: " + err; })) return true;
      const std::string dump2 = c->toStringOnlyData();
      ctx.check(again == wbits, "guided-reread-size", [&] { return what() + strf("%llu bits written, %llu read", static_cast<unsigned long long>(wbits), static_cast<unsigned long long>(again)); });
      // a QuickTime name is taken as counted or as terminated by whether its first byte happens to be its length, and a
      // counted one with a zero in it is written as a terminated one
      if (type == t4("hdlr") && w.size() > 24 && std::string_view(w).substr(4, 4) != std::string_view("\0\0\0\0", 4)) {
        ctx.count("ambiguous_names");
        return true;
      }
      ctx.check(dump2 == dump, "guided-dump", [&] { return what() + "dump of what was written: " + diff_text(dump2, dump); });
      std::ostringstream os2;
      c->writeData(os2);
      ctx.check(os2.str() == w, "guided-rewrite", [&] {
        const std::string s = os2.str();
        return what() + "written again: " + diff_bytes(Bytes(s.begin(), s.end()), Bytes(w.begin(), w.end()));
      });
      ctx.count("agreements");
    } catch (const std::exception& e) {
      if (agree) ctx.count("unwritable");
      return true;
    }
    return true;
  });
}

// What an accepted file's dump says has to be what its bytes say: boxes where the headers are, of the sizes the headers
// give, side by side, children filling the end of their parent, the last one ending with the file.
struct Line {
  unsigned depth = 0;
  std::string type;
  std::uint64_t offset = 0, size = 0;
};

// false: a text with a line break in it makes the dump ambiguous
bool parse_dump(const std::string& dump, std::vector<Line>& out) {
  std::size_t at = 0;
  while (at < dump.size()) {
    const std::size_t nl = std::min(dump.find('\n', at), dump.size());
    const std::string l = dump.substr(at, nl - at);
    at = nl + 1;
    Line x;
    std::size_t i = l.find_first_not_of(' ');
    if (i == std::string::npos || i % 2 != 0 || l[i] != '[') return false;
    x.depth = static_cast<unsigned>(i / 2);
    const std::size_t c = l.find("] Offset=", i);
    if (c == std::string::npos || c > i + 20) return false;
    x.type = l.substr(i + 1, c - i - 1);
    unsigned long long o = 0, z = 0;
    if (std::sscanf(l.c_str() + c, "] Offset=%llu Size=%llu", &o, &z) != 2) return false;
    x.offset = o, x.size = z;
    out.push_back(x);
  }
  return true;
}

std::string structure_error(const Bytes& in, const std::vector<Line>& lines) {
  struct Frame {
    std::uint64_t data, end, next;
    bool kids;
  };
  std::vector<Frame> open{{0, in.size(), 0, true}};
  const auto be = [&](std::uint64_t at, unsigned n) {
    std::uint64_t v = 0;
    while (n--) v = v << 8 | in[at++];
    return v;
  };
  const auto close = [&](std::size_t depth) {
    while (open.size() > depth + 1) {
      const Frame f = open.back();
      open.pop_back();
      if (f.kids && f.next != f.end) return false;
    }
    return true;
  };
  for (std::size_t i = 0; i < lines.size(); ++i) {
    const Line& l = lines[i];
    const std::string at = strf("line %zu, [%s] Offset=%llu Size=%llu: ", i + 1, l.type.c_str(), static_cast<unsigned long long>(l.offset),
                                static_cast<unsigned long long>(l.size));
    if (l.depth + 1 > open.size()) return at + "skips a level";
    if (!close(l.depth)) return at + "the children before it do not fill their parent";
    Frame& p = open.back();
    if (p.kids ? l.offset != p.next : l.offset < p.data) return at + strf("expected at %llu", static_cast<unsigned long long>(p.kids ? p.next : p.data));
    if (l.offset > in.size() || in.size() - l.offset < 8) return at + "no header there";
    std::uint64_t size = be(l.offset, 4), header = 8;
    if (size == 1) {
      if (in.size() - l.offset < 16) return at + "no header there";
      size = be(l.offset + 8, 8), header = 16;
    } else if (size == 0) {
      size = in.size() - l.offset;
    }
    Type4 t;
    for (unsigned k = 0; k < 4; ++k) t[k] = in[l.offset + 4 + k];
    if (size != l.size) return at + strf("the header says %llu", static_cast<unsigned long long>(size));
    if (size < header) return at + "smaller than its header";
    if (type_text(t) != l.type) return at + "the header says " + type_text(t);
    if (size > p.end - l.offset) return at + "extends past its parent";
    p.next = l.offset + size;
    p.kids = true;
    open.push_back({l.offset + header, l.offset + size, 0, false});
  }
  if (!close(0)) return "the last children do not fill their parent";
  if (open[0].next != in.size()) return strf("%zu bytes, the last box ends at %llu", in.size(), static_cast<unsigned long long>(open[0].next));
  return "";
}

void files(Ctx& ctx, Rng& r, bool judge) {
  std::vector<Bytes> corpus{Bytes{}};
  for (int i = 0; i < 4; ++i) {
    TreeOptions o;
    o.forms = r.flag();
    o.unknown = r.flag();
    o.quicktime = r.flag();
    const Bytes b = encode(gen_forest(r, o));
    if (b.size() <= 3000) corpus.push_back(b);
  }
  corpus.push_back(random_soup(r));
  ctx.count("files");
  explore(ctx, r, corpus, 4000, ctx.tier == "thorough" ? 10000 : 1000, [&](const Bytes& given) {
    Bytes in = given;
    tame_trun(in, true);
    const Dump d = read_and_dump(in);
    if (!d.ok || !judge) return d.ok;
    std::vector<Line> lines;
    if (!parse_dump(d.text, lines)) {
      ctx.count("ambiguous_dumps");
      return true;
    }
    const std::string err = structure_error(in, lines);
    ctx.check(err.empty(), "guided-structure", [&] { return err + "; file " + hex(in, 400) + " dumped as " + d.text.substr(0, 600); });
    ctx.count("structures");
    ctx.count("structure_boxes", lines.size());
    if (lines.size() >= 8) ctx.count("structures_of_8_boxes");
    return true;
  });
}

void c01v(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (n % 3 == 2) files(ctx, r, false);
  else boxes(ctx, r, n / 3 * 2 + n % 3, false);
}
void c21v(Ctx& ctx, Rng& r, std::uint64_t) { files(ctx, r, true); }
void c04v(Ctx& ctx, Rng& r, std::uint64_t n) { boxes(ctx, r, n, true); }

Register r1("C01V", c01v);
Register r21("C21V", c21v);
Register r4("C04V", c04v);
}  // namespace
}  // namespace vh
