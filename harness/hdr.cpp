// C08: box headers and box types.
#include <algorithm>
#include <fmt/format.h>

#include <limits>
#include <memory>
#include <sstream>

#include "gen.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_header.hpp"

namespace vh {
namespace {

Type4 any_type(Rng& r) {
  Type4 t;
  switch (r.below(5)) {
    case 0: return t4(r.pick(std::vector<const char*>{"moov", "mdat", "free", "url ", "----", "\xa9" "too"}));
    case 1:
      for (auto& c : t) c = static_cast<std::uint8_t>(r.range(0x20, 0x7e));
      return t;
    case 2:  // a few distinct bytes, so that equal and nearly equal types are frequent
      for (auto& c : t) c = r.pick(std::vector<std::uint8_t>{0, 'a', 'b', 0xa9, 0x7f, 0xff});
      return t;
    case 3:
      for (auto& c : t) c = static_cast<std::uint8_t>(r.range('a', 'z'));
      t[r.below(4)] = static_cast<std::uint8_t>(r.next());
      return t;
    default:
      for (auto& c : t) c = static_cast<std::uint8_t>(r.next());
      return t;
  }
}

template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

// A readable file of any size that holds a few bytes somewhere and zeros elsewhere.
class FarBuf : public std::streambuf {
 public:
  FarBuf(std::uint64_t at, const Bytes& bytes, std::uint64_t end) : at_(at), bytes_(bytes), end_(end) {}

 protected:
  int_type underflow() override {
    if (pos_ >= end_) return traits_type::eof();
    return traits_type::to_int_type(static_cast<char>(pos_ >= at_ && pos_ - at_ < bytes_.size() ? bytes_[pos_ - at_] : 0));
  }
  int_type uflow() override {
    const auto c = underflow();
    if (!traits_type::eq_int_type(c, traits_type::eof())) ++pos_;
    return c;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    const off_type base = d == std::ios_base::beg ? 0 : static_cast<off_type>(d == std::ios_base::cur ? pos_ : end_);
    if (base + o < 0) return pos_type(off_type(-1));
    pos_ = static_cast<std::uint64_t>(base + o);
    return pos_type(static_cast<off_type>(pos_));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

 private:
  std::uint64_t at_;
  Bytes bytes_;
  std::uint64_t end_, pos_ = 0;
};

// headers far into files, and of boxes, larger than 4 GiB
void far(Ctx& ctx, Rng& r) {
  const Type4 t = any_type(r);
  const unsigned form = static_cast<unsigned>(r.below(3));
  const std::uint64_t off = r.edge(44), hs = form == 1 ? 16 : 8;
  std::uint64_t data = r.edge(r.chance(1, 4) ? 61 : 44);
  if (form == 0 && data > 0xffffffffULL - 8) data = 0xffffffffULL - 8 - r.below(100);
  const std::uint64_t size = hs + data;
  Enc e;
  if (form == 0) e.u32(size).raw(t);
  if (form == 1) e.u32(1).raw(t).u64(size);
  if (form == 2) e.u32(0).raw(t);
  const std::uint64_t behind = form == 2 || r.flag() ? 0 : r.edge(44);
  FarBuf buf(off, e.b, off + size + behind);
  std::istream is(&buf);
  is.seekg(static_cast<std::streamoff>(off));
  ctx.count("far_headers");
  if (off + size > 0xffffffffULL) ctx.count("beyond_4_gib");
  auto what = [&] {
    return strf("header form %u type %s offset %llu data %llu in a file of %llu: ", form, type_text(t).c_str(),
                static_cast<unsigned long long>(off), static_cast<unsigned long long>(data),
                static_cast<unsigned long long>(off + size + behind));
  };
  std::unique_ptr<mp4::BoxHeader> p(mp4::read_box_header(is));
  ctx.check(p->getOffset() == off && p->getSize() == size && p->getHeaderSize() == hs && p->getType() == mp4::BoxType(t) &&
                p->getDataSize() == data,
            "far-read", [&] {
              return what() + strf("read offset %llu size %llu header %llu", static_cast<unsigned long long>(p->getOffset()),
                                   static_cast<unsigned long long>(p->getSize()), static_cast<unsigned long long>(p->getHeaderSize()));
            });
  p->seekToEnd(is);
  ctx.check(static_cast<std::uint64_t>(is.tellg()) == off + size, "far-end",
            [&] { return what() + strf("end at %lld", static_cast<long long>(is.tellg())); });
  is.clear();
  p->seekToData(is);
  ctx.check(static_cast<std::uint64_t>(is.tellg()) == off + hs, "far-data",
            [&] { return what() + strf("payload at %lld", static_cast<long long>(is.tellg())); });
}

void types(Ctx& ctx, Rng& r) {
  const Type4 a = any_type(r), b = r.chance(1, 4) ? a : any_type(r);
  const mp4::BoxType x(a), y(b);
  ctx.count("type_pairs");
  ctx.seen("type" + type_text(a) + type_text(b));
  ctx.check(x.getData() == a, "type-data", [&] { return "data of " + hex(Bytes(a.begin(), a.end())); });
  ctx.check((x == y) == (a == b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x != y) == (a != b),
            "type-order", [&] { return "comparison of " + hex(Bytes(a.begin(), a.end())) + " and " + hex(Bytes(b.begin(), b.end())); });
  ctx.check(x.toString() == type_text(a), "type-text", [&] {
    return hex(Bytes(a.begin(), a.end())) + " prints as \"" + x.toString() + "\", expected \"" + type_text(a) + "\"";
  });
  const Type4 zero{0, 0, 0, 0};
  const bool match = a == b || a == zero || b == zero;
  ctx.check(x.matchWith(y) == match && y.matchWith(x) == match, "type-match", [&] {
    return "match of " + hex(Bytes(a.begin(), a.end())) + " and " + hex(Bytes(b.begin(), b.end()));
  });
  ctx.check(x.matchWith(mp4::box_type_any()) && mp4::box_type_any().matchWith(x), "type-any",
            [&] { return "wildcard does not match " + hex(Bytes(a.begin(), a.end())); });
  const mp4::BoxType z(std::string(a.begin(), a.end()));
  mp4::BoxType q;
  q.setData(a[0], a[1], a[2], a[3]);
  ctx.check(z == x && q == x, "type-construct", [&] { return "constructors disagree on " + hex(Bytes(a.begin(), a.end())); });
  const std::size_t n = r.pick(std::vector<std::size_t>{0, 1, 2, 3, 5, 6, 8, 40});
  ctx.check(throws([&] { mp4::BoxType t(std::string(n, 'a')); }), "type-length",
            [&] { return strf("a box type of %zu characters is accepted", n); });
}

void c08(Ctx& ctx, Rng& r, std::uint64_t n) {
  types(ctx, r);
  const Type4 t = any_type(r);
  const std::uint64_t off = r.chance(1, 3) ? 0 : r.below(300);
  // 0 small, 1 large (needed or chosen), 2 to end of file
  const unsigned form = static_cast<unsigned>(r.below(3));
  std::uint64_t data = r.chance(1, 3) ? r.below(60) : r.edge(r.chance(1, 4) ? 62 : 40);
  if (form == 0 && data > 0xffffffffULL - 8) data = r.flag() ? 0xffffffffULL - 8 : r.below(1000);
  if (form == 2) data = r.below(80);
  const std::uint64_t hs = form == 1 ? 16 : 8;
  const std::uint64_t size = hs + data;
  ctx.count(form == 0 ? "header_32" : form == 1 ? "header_64" : "header_eof");
  ctx.seen(strf("hdr%u/%llu/%llu/", form, static_cast<unsigned long long>(off), static_cast<unsigned long long>(data)) + type_text(t));
  auto what = [&] {
    return strf("header form %u type %s offset %llu data %llu: ", form, type_text(t).c_str(),
                static_cast<unsigned long long>(off), static_cast<unsigned long long>(data));
  };
  mp4::BoxHeader h({.offset = off, .size = size, .header_size = hs, .type = mp4::BoxType(t), .extend_to_eof = form == 2});
  ctx.check(h.getOffset() == off && h.getSize() == size && h.getHeaderSize() == hs && h.getDataSize() == data &&
                h.getType() == mp4::BoxType(t),
            "accessors", [&] { return what() + "accessors"; });
  ctx.check(h.toString() == "[" + type_text(t) + "]" + strf(" Offset=%llu Size=%llu", static_cast<unsigned long long>(off),
                                                            static_cast<unsigned long long>(size)),
            "text", [&] { return what() + h.toString(); });
  std::stringstream os;
  os << std::string(off + 3, '#');
  h.write(os);
  const std::string s = os.str();
  Enc e;
  if (form == 0) e.u32(size).raw(t);
  if (form == 1) e.u32(1).raw(t).u64(size);
  if (form == 2) e.u32(0).raw(t);
  const Bytes got(s.begin() + static_cast<long>(off), s.begin() + static_cast<long>(std::min<std::size_t>(s.size(), off + hs)));
  ctx.check(got == e.b, "bytes", [&] { return what() + diff_bytes(got, e.b); });
  ctx.check(static_cast<std::uint64_t>(os.tellp()) == off + hs, "write-position",
            [&] { return what() + strf("stream at %lld after writing", static_cast<long long>(os.tellp())); });
  ctx.check(h.getOffset() == off && h.getSize() == size && h.getHeaderSize() == hs, "write-keeps", [&] {
    return what() + strf("after writing: offset %llu size %llu header %llu", static_cast<unsigned long long>(h.getOffset()),
                         static_cast<unsigned long long>(h.getSize()), static_cast<unsigned long long>(h.getHeaderSize()));
  });
  // reading it back; the payload need not be present except for the to-end-of-file form
  std::string file = std::string(off, 'p') + std::string(e.b.begin(), e.b.end());
  const std::size_t follow = form == 2 ? data : r.below(90);
  file += std::string(follow, 'x');
  std::istringstream is(file);
  is.seekg(static_cast<std::streamoff>(off));
  {
    std::unique_ptr<mp4::BoxHeader> p(mp4::read_box_header(is));
    ctx.check(p->getOffset() == off && p->getSize() == size && p->getHeaderSize() == hs && p->getType() == mp4::BoxType(t) &&
                  p->getDataSize() == data,
              "read-back", [&] {
                return what() + strf("read back offset %llu size %llu header %llu type %s",
                                     static_cast<unsigned long long>(p->getOffset()),
                                     static_cast<unsigned long long>(p->getSize()),
                                     static_cast<unsigned long long>(p->getHeaderSize()), p->getType().toString().c_str());
              });
    if (off + size <= file.size()) {
      p->seekToEnd(is);
      ctx.check(static_cast<std::uint64_t>(is.tellg()) == off + size, "seek-end",
                [&] { return what() + strf("end at %lld", static_cast<long long>(is.tellg())); });
    }
    is.clear();
    is.seekg(0);
    p->seekToData(is);
    ctx.check(static_cast<std::uint64_t>(is.tellg()) == off + hs, "seek-data",
              [&] { return what() + strf("payload at %lld", static_cast<long long>(is.tellg())); });
    // written again it is the same header, the to-end-of-file form included
    std::stringstream os2;
    os2 << std::string(off, '#');
    p->write(os2);
    const std::string s2 = os2.str();
    ctx.check(Bytes(s2.begin() + static_cast<long>(off), s2.end()) == e.b, "rewrite", [&] {
      return what() + "rewritten: " + diff_bytes(Bytes(s2.begin() + static_cast<long>(off), s2.end()), e.b);
    });
    // through a box
    mp4::box::Free box;
    mp4::BoxHeader* const own = p.release();
    box.setHeader(own);
    if (r.flag()) box.setHeader(own);  // the one it has already
    is.seekg(0);
    box.seekToData(is);
    ctx.check(static_cast<std::uint64_t>(is.tellg()) == off + hs && box.getHeaderSize() == hs && box.getSize() == size,
              "box-header", [&] { return what() + "through a box"; });
    if (off + size <= file.size()) {
      box.seekToEnd(is);
      ctx.check(static_cast<std::uint64_t>(is.tellg()) == off + size, "box-seek-end", [&] { return what() + "end through a box"; });
    }
  }
  // a truncated header is an error at every length
  const std::size_t keep = r.below(hs);
  std::istringstream cut(file.substr(0, off + keep));
  cut.seekg(static_cast<std::streamoff>(off));
  ctx.count("truncated_headers");
  ctx.check(throws([&] { std::unique_ptr<mp4::BoxHeader> p(mp4::read_box_header(cut)); }), "truncated",
            [&] { return what() + strf("header of %zu bytes is accepted", keep); });
  // sizes assigned while laying out a file
  const std::uint64_t o2 = r.edge(40);
  const std::uint64_t lim = 0xffffffffULL - 8;
  const std::uint64_t d2 = r.chance(1, 2) ? lim - 3 + r.below(7) : r.edge(40);
  h.setOffsetAndDataSize(o2, d2);
  const std::uint64_t h2 = d2 > lim ? 16 : 8;
  if (form != 2)
    ctx.check(h.getOffset() == o2 && h.getHeaderSize() == h2 && h.getSize() == d2 + h2 && h.getDataSize() == d2, "assign", [&] {
      return strf("assigned offset %llu data %llu: header %llu size %llu", static_cast<unsigned long long>(o2),
                  static_cast<unsigned long long>(d2), static_cast<unsigned long long>(h.getHeaderSize()),
                  static_cast<unsigned long long>(h.getSize()));
    });
  // a header constructed in the small form switches to the large one when the size needs it
  const std::uint64_t big = 0x100000000ULL + r.below(1ULL << 34);
  mp4::BoxHeader hb({.offset = 0, .size = big, .header_size = 8, .type = mp4::BoxType(t)});
  std::stringstream ob;
  hb.write(ob);
  Enc eb;
  eb.u32(1).raw(t).u64(big);
  const std::string sb = ob.str();
  // (whether the constructed size already counts the longer header is left open: the repository's test expects the value
  // it was constructed with, the size the box reports afterwards counts it)
  ctx.check(sb.size() == 16 && std::equal(sb.begin(), sb.begin() + 8, eb.b.begin(),
                                          [](char a, std::uint8_t b) { return static_cast<std::uint8_t>(a) == b; }),
            "promote", [&] { return strf("a box of %llu bytes is not written with the 64-bit form", static_cast<unsigned long long>(big)); });
  far(ctx, r);
  if (n < 3) ctx.sample(what() + hex(e.b));
}

Register r8("C08", c08);
}  // namespace
}  // namespace vh
