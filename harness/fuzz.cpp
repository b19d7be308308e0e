// C01 memory safety of parsing arbitrary bytes.
#include <algorithm>
#include <memory>
#include <sstream>

#include "gen_util.hpp"
#include "mutate.hpp"
#include "scenario.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "sparse.hpp"
#include "tree.hpp"

namespace vh {
namespace {

mp4::BoxMap& box_map() {
  thread_local mp4::BoxMap* map = [] {
    auto m = new mp4::BoxMap();
    mp4::register_box_map(m);
    return m;
  }();
  return *map;
}

std::string as_str(const Bytes& b) { return std::string(b.begin(), b.end()); }

struct Tally {
  unsigned ok = 0, refused = 0;
};

// the calls a user may make on a box, whatever it was read from
void use(mp4::Box& b, Bytes* out) {
  (void)b.toStringOnlyData();
  (void)b.toString();
  const std::uint64_t size = b.getDataSize();
  if (size > (64u << 20)) return;
  std::ostringstream os;
  try {
    b.writeData(os);
    if (out) {
      const std::string s = os.str();
      out->assign(s.begin(), s.end());
    }
  } catch (const std::exception&) {
  }
}

// reads the payload as a box of the type; with a header as the reader does, or without
void try_box(Rng& r, const Type4& t, const Bytes& payload, Tally& tally, mp4::Box** keep = nullptr) {
  std::unique_ptr<mp4::Box> b;
  if (keep && *keep) {
    b.reset(*keep);
    *keep = nullptr;
  } else if (r.flag()) {
    b.reset(box_map().getBoxInstance(mp4::BoxType(t)));
  } else {
    auto h = new mp4::BoxHeader({.offset = 0, .size = payload.size() + 8, .header_size = 8, .type = mp4::BoxType(t), .extend_to_eof = r.chance(1, 8)});
    b.reset(box_map().getBoxInstance(h));
  }
  if (!b) return;
  std::istringstream is(as_str(payload));
  Bytes again;
  bool ok = true;
  try {
    b->readData(is);
  } catch (const std::exception&) {
    ok = false;
  }
  ok ? ++tally.ok : ++tally.refused;
  // a box that could not be read holds nothing to show: it may be destroyed or read into again
  try {
    if (ok) use(*b, &again);
  } catch (const std::exception&) {
  }
  if (ok && r.chance(1, 3)) {
    std::unique_ptr<mp4::Box> c(box_map().getBoxInstance(mp4::BoxType(t)));
    std::istringstream is2(as_str(again));
    try {
      c->readData(is2);
      use(*c, nullptr);
    } catch (const std::exception&) {
    }
  }
  if (keep) *keep = b.release();
}

Bytes recording(Rng& r) {
  SpecOptions o;
  o.max_samples = 6;
  o.max_size = 30;
  o.max_tracks = 3;
  Spec s = gen_spec(r, o);
  s.faststart = false;
  fit_durations(s);
  MemBuf buf;
  std::ostream os(&buf);
  try {
    execute(s, os);
  } catch (const std::exception&) {
  }
  return buf.data;
}

void c01(Ctx& ctx, Rng& r, std::uint64_t n) {
  Tally t;
  const char* what = "";
  std::uint64_t inputs = 0;
  const auto file = [&](Bytes f) {
    tame_trun(f, true);
    ++inputs;
    const Dump d = read_and_dump(f);
    d.ok ? ++t.ok : ++t.refused;
    ctx.maxi("file_bytes", f.size());
    ctx.seen(std::to_string(fnv(f.data(), f.size())));
  };
  switch (n % 8) {
    case 0:
    case 1:
    case 2: {
      what = "boxes";
      const auto& k = kinds()[(n / 8 * 3 + n % 8) % kinds().size()];
      mp4::Box* kept = nullptr;
      for (int i = 0; i < 24; ++i) {
        const BoxCase c = r.chance(1, 60) ? gen_unsupported(r) : k.gen(r);
        Bytes p = c.payload;
        if (!c.counts.empty() && r.chance(1, 4)) {
          const auto& f = c.counts[r.below(c.counts.size())];
          const std::uint64_t v = r.edge(8 * f.bytes);
          for (unsigned q = 0; q < f.bytes; ++q)
            if (f.offset + q < p.size()) p[f.offset + q] = static_cast<std::uint8_t>(v >> (8 * (f.bytes - 1 - q)));
        }
        mutate(r, p, static_cast<unsigned>(r.below(5)));
        if (c.type == t4("trun")) tame_trun(p, false);
        ++inputs;
        ctx.seen(as_string(c.type) + std::to_string(fnv(p.data(), p.size())));
        // a new box, or one that has been read into before
        if (kept && (kept->getType() != mp4::BoxType(c.type) || r.chance(1, 3))) {
          delete kept;
          kept = nullptr;
        }
        try_box(r, c.type, p, t, r.flag() ? nullptr : &kept);
      }
      delete kept;
      ctx.count("kind." + std::string(k.name), 24);
      break;
    }
    case 3: {
      what = "foreign_payloads";
      for (int i = 0; i < 24; ++i) {
        const BoxCase a = gen_box(r), b = gen_box(r);
        Bytes p = r.chance(1, 4) ? r.bytes(r.below(200)) : b.payload;
        if (r.chance(1, 3)) {  // the front of one and the rest of the other
          p = a.payload;
          p.resize(r.below(p.size() + 1));
          p.insert(p.end(), b.payload.begin() + static_cast<long>(r.below(b.payload.size() + 1)), b.payload.end());
        }
        mutate(r, p, static_cast<unsigned>(r.below(3)));
        if (a.type == t4("trun")) tame_trun(p, false);
        ++inputs;
        ctx.seen(as_string(a.type) + std::to_string(fnv(p.data(), p.size())));
        try_box(r, a.type, p, t);
      }
      break;
    }
    case 4:
    case 5: {
      what = "files";
      TreeOptions o;
      o.forms = r.flag();
      o.unknown = r.flag();
      o.quicktime = r.flag();
      auto f = gen_forest(r, o);
      for (int i = 0; i < 6; ++i) {
        auto g = f;
        if (r.flag()) {  // payloads first, so that the structure around them stays whole
          for (auto& x : refs(g))
            if (r.chance(1, 4)) mutate(r, x.node->c.payload, static_cast<unsigned>(r.range(1, 3)));
          layout(g, 0);
        }
        Bytes b = encode(g);
        mutate(r, b, static_cast<unsigned>(r.below(4)));
        file(b);
      }
      break;
    }
    case 6: {
      what = "soups";
      for (int i = 0; i < 12; ++i) {
        Bytes b = random_soup(r);
        if (r.flag()) mutate(r, b, static_cast<unsigned>(r.range(1, 3)));
        file(b);
      }
      break;
    }
    default: {
      if (n % 24 == 7) {
        what = "chains";
        for (int i = 0; i < 3; ++i) {
          Bytes b = deep_chain(r);
          if (r.chance(1, 3)) mutate(r, b, static_cast<unsigned>(r.range(1, 3)));
          file(b);
        }
      } else {
        what = "damaged_recordings";
        const Bytes rec = recording(r);
        for (int i = 0; i < 8; ++i) {
          Bytes b = rec;
          mutate(r, b, static_cast<unsigned>(r.range(1, 6)));
          file(b);
        }
      }
    }
  }
  ctx.count(what, inputs);
  ctx.count("inputs", inputs);
  ctx.count("accepted", t.ok);
  ctx.count("refused", t.refused);
  ctx.evaluations += inputs;
  if (n < 8) ctx.sample(strf("%s: %u accepted, %u refused with an exception", what, t.ok, t.refused));
}

Register reg("C01", c01);

}  // namespace
}  // namespace vh
