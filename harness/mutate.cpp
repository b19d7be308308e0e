#include "mutate.hpp"

#include <algorithm>

#include "gen_util.hpp"

namespace vh {

namespace {
std::uint64_t interesting(Rng& r, unsigned bytes, std::size_t size) {
  switch (r.below(9)) {
    case 0: return 0;
    case 1: return ~0ULL;
    case 2: return 1ULL << (8 * bytes - 1);
    case 3: return (1ULL << (8 * bytes - 1)) - 1;
    case 4: return r.below(20);
    case 5: return size;
    case 6: return size + r.below(17) - 8;
    case 7: return r.edge(8 * bytes);
    default: return r.next();
  }
}
const char* kTypes[] = {"moov", "trak", "meta", "stsd", "mp4a", "wave", "avc1", "ilst", "trun", "esds", "hdlr", "sgpd", "uuid", "mdat"};
}  // namespace

void mutate(Rng& r, Bytes& b, unsigned count) {
  for (unsigned k = 0; k < count; ++k) {
    const std::size_t n = b.size();
    switch (r.below(14)) {
      case 0:
      case 1:
        if (n) b[r.below(n)] ^= static_cast<std::uint8_t>(1u << r.below(8));
        break;
      case 2:
        if (n) b[r.below(n)] = r.u8();
        break;
      case 3:
      case 4:
      case 5:
      case 6: {
        const unsigned w = r.pick(std::vector<unsigned>{1, 2, 3, 4, 4, 8});
        if (n < w) break;
        std::size_t at = r.below(n - w + 1);
        if (r.flag()) at = std::min<std::size_t>(r.below(24), n - w);  // counts and sizes are near the front
        const std::uint64_t v = interesting(r, w, n);
        for (unsigned i = 0; i < w; ++i) b[at + i] = static_cast<std::uint8_t>(v >> (8 * (w - 1 - i)));
        break;
      }
      case 7: b.resize(r.below(n + 1)); break;
      case 8: {  // cut a few bytes from the end
        b.resize(n - std::min<std::size_t>(n, r.range(1, 9)));
        break;
      }
      case 9: {
        const Bytes x = r.flag() ? r.bytes(r.range(1, 16)) : Bytes(r.range(1, 16), r.u8());
        b.insert(b.begin() + static_cast<long>(r.below(n + 1)), x.begin(), x.end());
        break;
      }
      case 10: {
        if (!n) break;
        const std::size_t at = r.below(n), len = std::min<std::size_t>(n - at, r.range(1, 16));
        b.erase(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + len));
        break;
      }
      case 11: {
        if (!n || n > (1u << 20)) break;
        const std::size_t at = r.below(n), len = std::min<std::size_t>(n - at, r.range(1, 64));
        const Bytes x(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + len));
        b.insert(b.begin() + static_cast<long>(r.below(n + 1)), x.begin(), x.end());
        break;
      }
      case 12: {  // one box type for another
        if (n < 4) break;
        const std::size_t at = r.below(n - 3);
        std::size_t i = at;
        const auto letter = [&](std::size_t p) {
          for (std::size_t q = p; q < p + 4; ++q)
            if (!((b[q] >= 'a' && b[q] <= 'z') || (b[q] >= 'A' && b[q] <= 'Z') || (b[q] >= '0' && b[q] <= '9') || b[q] == ' ' || b[q] == 0xa9)) return false;
          return true;
        };
        while (i + 4 <= n && !letter(i)) ++i;
        if (i + 4 > n) break;
        const Type4 t = t4(kTypes[r.below(std::size(kTypes))]);
        std::copy(t.begin(), t.end(), b.begin() + static_cast<long>(i));
        break;
      }
      default:
        if (n) {
          const std::size_t at = r.below(n), len = std::min<std::size_t>(n - at, r.range(1, 12));
          const std::uint8_t v = r.flag() ? 0 : 0xff;
          std::fill(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + len), v);
        }
    }
  }
}

static void tame_at(Bytes& b, std::size_t at) {
  if (at + 8 > b.size()) return;
  if (b[at + 2] & 0x0f) return;
  b[at + 4] = b[at + 5] = b[at + 6] = 0;
}

void tame_trun(Bytes& b, bool file) {
  if (!file) {
    tame_at(b, 0);
    return;
  }
  for (std::size_t i = 4; i + 4 <= b.size(); ++i) {
    if (b[i] != 't' || b[i + 1] != 'r' || b[i + 2] != 'u' || b[i + 3] != 'n') continue;
    tame_at(b, i + 4);
    tame_at(b, i + 12);
  }
}

static void soup(Rng& r, Bytes& out, unsigned depth, std::size_t budget) {
  do {
    Bytes body;
    Type4 t;
    const BoxCase c = r.flag() ? gen_kind("container", r) : gen_box(r);
    t = c.type;
    if (r.chance(1, 10)) t = fourcc(r);
    if (r.flag()) body = Bytes(c.payload.begin(), c.payload.begin() + static_cast<long>(std::min<std::size_t>(c.payload.size(), 200)));
    if (r.chance(1, 3)) {
      const Bytes x = r.bytes(r.below(40));
      body.insert(body.end(), x.begin(), x.end());
    }
    if (depth < 10 && r.chance(1, 2) && budget > 50) soup(r, body, depth + 1, budget / 2);
    std::uint64_t size = body.size() + 8;
    if (r.chance(1, 8)) size = interesting(r, 4, size) & 0xffffffff;
    Enc e;
    if (r.chance(1, 8))
      e.u32(1).raw(t).u64(r.chance(3, 4) ? body.size() + 16 : interesting(r, 8, size));
    else
      e.u32(size).raw(t);
    out.insert(out.end(), e.b.begin(), e.b.end());
    out.insert(out.end(), body.begin(), body.end());
    budget -= std::min(budget, body.size() + 8);
  } while (budget > 20 && r.chance(2, 3));
}

Bytes random_soup(Rng& r) {
  Bytes b;
  soup(r, b, 0, r.range(30, 1500));
  return b;
}

Bytes deep_chain(Rng& r) {
  // container types without payload, and some with
  const std::size_t depth = r.chance(1, 3) ? r.range(55, 75) : r.chance(1, 20) ? r.range(10000, 60000) : r.range(2, 400);
  const char* types[] = {"moov", "trak", "mdia", "minf", "stbl", "edts", "dinf", "udta", "ilst", "mvex", "moof", "traf", "wave"};
  Bytes b;
  const bool eof = r.flag(), same = r.flag(), meta = r.chance(1, 3);
  const char* one = types[r.below(std::size(types))];
  Enc e;
  for (std::size_t i = 0; i < depth; ++i) {
    const bool m = meta && r.flag();
    const Type4 t = t4(m ? "meta" : same ? one : types[r.below(std::size(types))]);
    // sizes are fixed up below unless the boxes extend to the end of the file
    e.u32(eof ? 0 : 8 * (depth - i) + (r.chance(1, 50) ? r.below(16) : 0)).raw(t);
    if (m && eof && r.flag()) e.u32(0);
  }
  return e.b;
}

}  // namespace vh
