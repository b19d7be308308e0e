// C06: random sequences of bit-level primitives against an independent bit string.
#include <sstream>

#include "gen.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/endian/endian.hpp"
#include "shiguredo/mp4/stream/stream.hpp"

namespace vh {
namespace {
namespace bio = mp4::bitio;

struct Op {
  int kind;
  unsigned size = 0;   // bits of the value, or element bytes
  unsigned tbits = 0;  // bits of the C++ type
  std::uint64_t u = 0;
  std::int64_t i = 0;
  std::string s;
  std::vector<std::uint64_t> list;
  std::uint64_t begin = 0, end = 0;  // bit range on the wire
};
enum { UINT, INT, BOOL, ARR4, STR, PASCAL, UVAR, VEC, RAW, BIT, KINDS };
const char* names[] = {"uint", "int", "bool", "array4", "string", "pascal", "uvarint", "vector", "raw", "bit"};

Op gen_op(Rng& r, unsigned phase) {
  Op o;
  o.kind = static_cast<int>(r.below(KINDS));
  if (o.kind == RAW && phase != 0) o.kind = UINT;
  if (o.kind == PASCAL && phase != 0) o.kind = INT;
  static const unsigned tb[] = {8, 16, 32, 64};
  o.tbits = tb[r.below(4)];
  switch (o.kind) {
    case UINT:
      o.size = static_cast<unsigned>(r.chance(1, 3) ? o.tbits : r.range(1, o.tbits));
      o.u = r.edge(o.size);
      break;
    case INT:
      o.size = static_cast<unsigned>(r.chance(1, 3) ? o.tbits : r.range(1, o.tbits));
      o.i = r.sedge(o.size);
      break;
    case BOOL:
    case BIT: o.u = r.below(2); break;
    case ARR4: o.u = r.edge(32); break;
    case STR: {
      const std::size_t n = r.chance(1, 20) ? r.range(250, 300) : r.below(8);
      for (std::size_t k = 0; k < n; ++k) o.s += static_cast<char>(r.range(1, 255));
      break;
    }
    case PASCAL: {
      const std::size_t n = r.chance(1, 10) ? r.range(250, 255) : r.range(1, 9);
      for (std::size_t k = 0; k < n; ++k) o.s += static_cast<char>(r.range(0, 255));
      break;
    }
    case UVAR:  // in as many groups as the type has bytes, or as asked for
      o.size = o.tbits / 8;
      if (r.chance(1, 3)) o.size = static_cast<unsigned>(r.range(1, 20));
      o.u = r.edge(std::min(o.tbits, 7 * o.size));
      break;
    case VEC:
      for (std::size_t k = r.below(5); k-- > 0;) o.list.push_back(r.edge(o.tbits));
      break;
    case RAW: {
      const Bytes b = r.bytes(r.below(6));
      o.s.assign(b.begin(), b.end());
      break;
    }
    default: break;
  }
  return o;
}

void encode(Enc& e, const Op& o) {
  switch (o.kind) {
    case UINT: e.u(o.u, o.size); break;
    case INT: e.u(static_cast<std::uint64_t>(o.i), o.size); break;
    case BOOL:
    case BIT: e.u(o.u, 1); break;
    case ARR4: e.u32(o.u); break;
    case STR:
      for (unsigned char c : o.s) e.u8(c);
      e.u8(0);
      break;
    case PASCAL:
      e.u8(o.s.size());
      for (unsigned char c : o.s) e.u8(c);
      break;
    case UVAR:
      for (unsigned k = o.size; k-- > 0;) e.u8((k < 10 ? (o.u >> (7 * k)) & 0x7f : 0) | (k ? 0x80 : 0));
      break;
    case VEC:
      for (auto x : o.list) e.u(x, o.tbits);
      break;
    case RAW:
      for (unsigned char c : o.s) e.u8(c);
      break;
    default: break;
  }
}

std::uint64_t lib_write(bio::Writer& w, const Op& o) {
  switch (o.kind) {
    case UINT:
      if (o.tbits == 8) return bio::write_uint<std::uint8_t>(&w, static_cast<std::uint8_t>(o.u), o.size);
      if (o.tbits == 16) return bio::write_uint<std::uint16_t>(&w, static_cast<std::uint16_t>(o.u), o.size);
      if (o.tbits == 32) return bio::write_uint<std::uint32_t>(&w, static_cast<std::uint32_t>(o.u), o.size);
      return bio::write_uint<std::uint64_t>(&w, o.u, o.size);
    case INT:
      if (o.tbits == 8) return bio::write_int<std::int8_t>(&w, static_cast<std::int8_t>(o.i), o.size);
      if (o.tbits == 16) return bio::write_int<std::int16_t>(&w, static_cast<std::int16_t>(o.i), o.size);
      if (o.tbits == 32) return bio::write_int<std::int32_t>(&w, static_cast<std::int32_t>(o.i), o.size);
      return bio::write_int<std::int64_t>(&w, o.i, o.size);
    case BOOL: return bio::write_bool(&w, o.u != 0);
    case BIT: w.writeBit(o.u != 0); return 1;
    case ARR4:
      return bio::write_array_uint8_4(&w, {static_cast<std::uint8_t>(o.u >> 24), static_cast<std::uint8_t>(o.u >> 16),
                                           static_cast<std::uint8_t>(o.u >> 8), static_cast<std::uint8_t>(o.u)});
    case STR: return bio::write_string(&w, o.s);
    case PASCAL: return bio::write_pascal_string(&w, o.s);
    case UVAR:
      if (o.size != o.tbits / 8) {
        if (o.tbits == 8) return bio::write_uvarint<std::uint8_t>(&w, static_cast<std::uint8_t>(o.u), o.size);
        if (o.tbits == 16) return bio::write_uvarint<std::uint16_t>(&w, static_cast<std::uint16_t>(o.u), o.size);
        if (o.tbits == 32) return bio::write_uvarint<std::uint32_t>(&w, static_cast<std::uint32_t>(o.u), o.size);
        return bio::write_uvarint<std::uint64_t>(&w, o.u, o.size);
      }
      if (o.tbits == 8) return bio::write_uvarint<std::uint8_t>(&w, static_cast<std::uint8_t>(o.u));
      if (o.tbits == 16) return bio::write_uvarint<std::uint16_t>(&w, static_cast<std::uint16_t>(o.u));
      if (o.tbits == 32) return bio::write_uvarint<std::uint32_t>(&w, static_cast<std::uint32_t>(o.u));
      return bio::write_uvarint<std::uint64_t>(&w, o.u);
    case VEC:
      if (o.tbits == 8) return bio::write_vector_uint<std::uint8_t>(&w, Bytes(o.list.begin(), o.list.end()));
      if (o.tbits == 16)
        return bio::write_vector_uint<std::uint16_t>(&w, std::vector<std::uint16_t>(o.list.begin(), o.list.end()));
      if (o.tbits == 32)
        return bio::write_vector_uint<std::uint32_t>(&w, std::vector<std::uint32_t>(o.list.begin(), o.list.end()));
      return bio::write_vector_uint<std::uint64_t>(&w, o.list);
    case RAW: return static_cast<std::uint64_t>(w.write(Bytes(o.s.begin(), o.s.end()))) * 8;
    default: return 0;
  }
}

template <typename T>
bool same_list(const std::vector<T>& v, const std::vector<std::uint64_t>& l) {
  if (v.size() != l.size()) return false;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (v[i] != l[i]) return false;
  return true;
}

// reads back; returns whether the value is right
template <typename T>
bool rd_u(bio::Reader& rd, const Op& o, std::uint64_t* bits) {
  T v = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
  *bits = bio::read_uint<T>(&rd, &v, o.size);
  return v == static_cast<T>(o.u);
}
template <typename T>
bool rd_i(bio::Reader& rd, const Op& o, std::uint64_t* bits) {
  T v = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
  *bits = bio::read_int<T>(&rd, &v, o.size);
  return v == static_cast<T>(o.i);
}
template <typename T>
bool rd_v(bio::Reader& rd, const Op& o, std::uint64_t* bits) {
  T v = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
  *bits = bio::read_uvarint<T>(&rd, &v);
  return v == static_cast<T>(o.u);
}
template <typename T>
bool rd_l(bio::Reader& rd, const Op& o, std::uint64_t* bits) {
  std::vector<T> v{1, 2, 3};
  *bits = bio::read_vector_uint<T>(&rd, o.list.size(), &v);
  return same_list(v, o.list);
}
bool lib_read(bio::Reader& rd, const Op& o, std::uint64_t* bits) {
  switch (o.kind) {
    case UINT:
      return o.tbits == 8    ? rd_u<std::uint8_t>(rd, o, bits)
             : o.tbits == 16 ? rd_u<std::uint16_t>(rd, o, bits)
             : o.tbits == 32 ? rd_u<std::uint32_t>(rd, o, bits)
                             : rd_u<std::uint64_t>(rd, o, bits);
    case INT:
      return o.tbits == 8    ? rd_i<std::int8_t>(rd, o, bits)
             : o.tbits == 16 ? rd_i<std::int16_t>(rd, o, bits)
             : o.tbits == 32 ? rd_i<std::int32_t>(rd, o, bits)
                             : rd_i<std::int64_t>(rd, o, bits);
    case BOOL: {
      bool b = o.u == 0;
      *bits = bio::read_bool(&rd, &b);
      return b == (o.u != 0);
    }
    case BIT:
      *bits = 1;
      return rd.readBit() == (o.u != 0);
    case ARR4: {
      std::array<std::uint8_t, 4> a{};
      *bits = bio::read_array_uint8_4(&rd, &a);
      return a[0] == (o.u >> 24 & 255) && a[1] == (o.u >> 16 & 255) && a[2] == (o.u >> 8 & 255) && a[3] == (o.u & 255);
    }
    case STR: {
      std::string s = "old";
      *bits = bio::read_string(&rd, &s, (o.s.size() + 1 + o.u % 3) * 8);
      return s == o.s;
    }
    case PASCAL: {
      std::string s = "old";
      *bits = bio::read_pascal_string(&rd, &s, (o.s.size() + 1) * 8);
      return s == o.s;
    }
    case UVAR:
      return o.tbits == 8    ? rd_v<std::uint8_t>(rd, o, bits)
             : o.tbits == 16 ? rd_v<std::uint16_t>(rd, o, bits)
             : o.tbits == 32 ? rd_v<std::uint32_t>(rd, o, bits)
                             : rd_v<std::uint64_t>(rd, o, bits);
    case VEC:
      return o.tbits == 8    ? rd_l<std::uint8_t>(rd, o, bits)
             : o.tbits == 16 ? rd_l<std::uint16_t>(rd, o, bits)
             : o.tbits == 32 ? rd_l<std::uint32_t>(rd, o, bits)
                             : rd_l<std::uint64_t>(rd, o, bits);
    case RAW: {
      Bytes b(o.s.size(), 0x11);
      *bits = static_cast<std::uint64_t>(rd.read(&b)) * 8;
      return std::string(b.begin(), b.end()) == o.s;
    }
    default: return false;
  }
}

std::string text_of(const std::vector<Op>& ops) {
  std::string s;
  for (const auto& o : ops)
    s += strf(" %s%u/%u@%llu", names[o.kind], o.size, o.tbits, static_cast<unsigned long long>(o.begin));
  return s.substr(0, 600);
}

template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

void misc(Ctx& ctx, Rng& r) {
  // byte order helpers
  const std::uint64_t v = r.u64();
  const auto a8 = mp4::endian::uint64_to_be(v);
  const auto a4 = mp4::endian::uint32_to_be(static_cast<std::uint32_t>(v));
  Enc e;
  e.u64(v).u32(v);
  Bytes got(a8.begin(), a8.end());
  got.insert(got.end(), a4.begin(), a4.end());
  ctx.check(got == e.b, "endian", [&] { return "to big endian: " + diff_bytes(got, e.b); });
  ctx.check(mp4::endian::be_to_uint64(a8) == v && mp4::endian::be_to_uint32(a4) == static_cast<std::uint32_t>(v),
            "endian-back", [&] { return strf("from big endian of %llx", static_cast<unsigned long long>(v)); });
  ctx.check(mp4::endian::be_to_uint64(a8[0], a8[1], a8[2], a8[3], a8[4], a8[5], a8[6], a8[7]) == v &&
                mp4::endian::be_to_uint32(a4[0], a4[1], a4[2], a4[3]) == static_cast<std::uint32_t>(v),
            "endian-back", [&] { return strf("from big endian bytes of %llx", static_cast<unsigned long long>(v)); });
  // distance to the end leaves the position alone
  const std::size_t n = r.below(50), p = r.below(n + 1);
  std::istringstream is(std::string(n, 'x'));
  is.seekg(static_cast<std::streamoff>(p));
  const auto d = mp4::stream::get_istream_offset_to_end(is);
  ctx.check(d == static_cast<std::streamoff>(n - p) && is.tellg() == static_cast<std::streamoff>(p), "offset-to-end",
            [&] { return strf("offset to end at %zu of %zu: %lld, position %lld", p, n, static_cast<long long>(d),
                              static_cast<long long>(is.tellg())); });
  // strings bounded by their field, and the length-prefixed form falling back to the plain one
  std::string s;
  for (std::size_t k = r.range(1, 12); k-- > 0;) s += static_cast<char>(r.range(1, 255));
  const std::size_t cut = r.below(s.size() + 1);
  std::istringstream is2(s + std::string(1, '\0'));
  bio::Reader rd(is2);
  std::string out;
  const auto bits = bio::read_string(&rd, &out, cut * 8);
  ctx.check(out == s.substr(0, cut) && bits == cut * 8, "string-limit", [&] {
    return strf("string limited to %zu bytes: got %zu bytes, %llu bits", cut, out.size(), static_cast<unsigned long long>(bits));
  });
  const std::size_t max = s.size() + 1 + r.below(3);
  const bool is_pascal = max >= 2 && static_cast<unsigned char>(s[0]) == max - 1;
  if (!is_pascal) {
    std::istringstream is3(s + std::string(4, '\0'));
    bio::Reader rd3(is3);
    std::string o3;
    const auto b3 = bio::read_pascal_string(&rd3, &o3, max * 8);
    ctx.check(o3 == s && b3 == (s.size() + 1) * 8 && is3.tellg() == static_cast<std::streamoff>(s.size() + 1),
              "pascal-fallback", [&] {
                return strf("plain string of %zu bytes in a field of %zu: got %zu bytes, %llu bits", s.size(), max,
                            o3.size(), static_cast<unsigned long long>(b3));
              });
  }
  std::ostringstream os4;
  bio::Writer w4(os4);
  ctx.check(throws([&] { bio::write_pascal_string(&w4, std::string(256 + r.below(100), 'a')); }), "pascal-too-long",
            [] { return std::string("a length-prefixed string of more than 255 bytes is accepted"); });
  // short forms of variable length integers
  std::uint64_t u = r.edge(28);
  Enc ev;
  bool on = false;
  for (int k = 3; k >= 0; --k) {
    const std::uint64_t q = (u >> (7 * k)) & 0x7f;
    if (q || on || k == 0) ev.u8(q | (k ? 0x80 : 0)), on = true;
  }
  std::istringstream is5(std::string(ev.b.begin(), ev.b.end()) + "zz");
  bio::Reader rd5(is5);
  std::uint32_t got5 = 0;
  const auto b5 = bio::read_uvarint<std::uint32_t>(&rd5, &got5);
  ctx.check(got5 == u && b5 == ev.b.size() * 8, "uvarint-short", [&] {
    return strf("uvarint %llu in %zu bytes: got %u, %llu bits", static_cast<unsigned long long>(u), ev.b.size(), got5,
                static_cast<unsigned long long>(b5));
  });
  // writeBits takes the last bits of the buffer, readBits right-aligns them
  const Bytes buf = r.bytes(r.chance(1, 200) ? r.pick(std::vector<std::size_t>{8191, 8192, 8193, 65536}) : r.range(1, 12));
  const std::uint64_t width = r.range(1, buf.size() * 8);
  std::ostringstream os6;
  bio::Writer w6(os6);
  w6.writeBits(buf, width);
  for (std::uint64_t k = width; k % 8; ++k) w6.writeBit(true);
  std::istringstream is6(os6.str());
  bio::Reader rd6(is6);
  Bytes back{9, 9, 9};
  rd6.readBits(&back, width);
  Bytes want(buf.end() - static_cast<long>((width + 7) / 8), buf.end());
  if (width % 8) want[0] &= static_cast<std::uint8_t>((1U << (width % 8)) - 1);
  ctx.check(back == want, "bits-buffer", [&] {
    return strf("%llu bits written and read: ", static_cast<unsigned long long>(width)) + diff_bytes(back, want);
  });
}

void c06(Ctx& ctx, Rng& r, std::uint64_t n) {
  misc(ctx, r);
  std::vector<Op> ops;
  Enc e;
  std::uint64_t bit = 0;
  const std::size_t count = r.range(1, 30);
  auto add = [&](Op o) {
    o.begin = bit;
    encode(e, o);
    bit = e.b.size() * 8 + e.n;
    o.end = bit;
    ops.push_back(o);
    ctx.count(std::string("op.") + names[o.kind]);
    ctx.seen(strf("%d/%u/%u/%llu", o.kind, o.size, o.tbits, static_cast<unsigned long long>(o.begin % 8)));
  };
  for (std::size_t i = 0; i < count; ++i) add(gen_op(r, static_cast<unsigned>(bit % 8)));
  if (bit % 8) {
    Op o;
    o.kind = UINT;
    o.tbits = 8;
    o.size = static_cast<unsigned>(8 - bit % 8);
    o.u = r.edge(o.size);
    add(o);
  }
  ctx.count("sequences");
  // write
  std::ostringstream os;
  bio::Writer w(os);
  std::uint64_t reported = 0;
  for (const auto& o : ops) {
    if (o.begin % 8 && r.chance(1, 6)) {
      const auto before = os.str();
      ctx.count("misaligned_writes");
      ctx.check(throws([&] { w.write({1, 2}); }) && os.str() == before, "misaligned-write",
                [&] { return "whole bytes are accepted in the middle of a byte, after" + text_of(ops); });
    }
    const auto b = lib_write(w, o);
    ctx.check(b == o.end - o.begin, strf("reported-written.%s", names[o.kind]), [&] {
      return strf("%s of %u bits reports %llu bits written, expected %llu", names[o.kind], o.size,
                  static_cast<unsigned long long>(b), static_cast<unsigned long long>(o.end - o.begin));
    });
    reported += b;
  }
  const std::string out = os.str();
  const Bytes got(out.begin(), out.end());
  if (!ctx.check(got == e.b, "wire", [&] { return diff_bytes(got, e.b) + " ops:" + text_of(ops); })) return;
  ctx.check(reported == e.b.size() * 8, "total", [&] { return strf("reported %llu bits, wrote %zu bytes",
                                                                   static_cast<unsigned long long>(reported), e.b.size()); });
  // read everything, with something after it
  {
    const std::size_t at = r.below(4);
    std::istringstream is(std::string(at, 'q') + out + "tail");
    is.seekg(static_cast<std::streamoff>(at));
    bio::Reader rd(is);
    for (const auto& o : ops) {
      if (o.begin % 8 && r.chance(1, 6)) {
        ctx.count("misaligned_reads");
        ctx.check(throws([&] {
                    Bytes b(2);
                    rd.read(&b);
                  }) && throws([&] { rd.seek(0, std::ios_base::cur); }),
                  "misaligned-read", [&] { return "whole bytes are read in the middle of a byte, in" + text_of(ops); });
      }
      std::uint64_t bits = 0;
      const bool ok = lib_read(rd, o, &bits);
      if (!ctx.check(ok, strf("value.%s", names[o.kind]), [&] {
            return strf("%s of %u bits (type of %u) at bit %llu reads back wrong: wrote u=%llx i=%lld", names[o.kind], o.size,
                        o.tbits, static_cast<unsigned long long>(o.begin), static_cast<unsigned long long>(o.u),
                        static_cast<long long>(o.i));
          }))
        return;
      ctx.check(bits == o.end - o.begin, strf("reported-read.%s", names[o.kind]), [&] {
        return strf("%s reports %llu bits read, expected %llu", names[o.kind], static_cast<unsigned long long>(bits),
                    static_cast<unsigned long long>(o.end - o.begin));
      });
    }
    // re-positioning to the start forgets a started byte
    if (r.flag()) {
      rd.readBit();
      rd.seek(at, std::ios_base::beg);
      std::uint64_t bits = 0;
      ctx.check(lib_read(rd, ops[0], &bits), "value-after-seek", [&] { return "first value after seeking back in" + text_of(ops); });
      ctx.count("seeks");
    }
  }
  // truncated input: everything before the cut is intact, the first value crossing it fails
  const std::size_t len = r.below(out.size() + 1);
  std::istringstream is(out.substr(0, len));
  bio::Reader rd(is);
  for (const auto& o : ops) {
    if (o.end <= len * 8) {
      std::uint64_t bits = 0;
      ctx.check(lib_read(rd, o, &bits), "truncated-prefix",
                [&] { return strf("value before the cut at byte %zu reads back wrong", len) + text_of(ops); });
      continue;
    }
    std::uint64_t bits = 0;
    ctx.count("reads_past_end");
    ctx.check(throws([&] { lib_read(rd, o, &bits); }), strf("past-end.%s", names[o.kind]), [&] {
      return strf("%s of %u bits at bit %llu read from a stream of %zu bytes succeeds", names[o.kind], o.size,
                  static_cast<unsigned long long>(o.begin), len);
    });
    break;
  }
  if (n < 3) ctx.sample(text_of(ops) + " -> " + hex(e.b, 40));
}

Register r6("C06", c06);
}  // namespace
}  // namespace vh
