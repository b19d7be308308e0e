// C03 wire layout, C04 read/write inverse, C05 size accounting, C23 version and flags.
#include <fmt/format.h>

#include <memory>
#include <sstream>

#include "gen.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"

namespace vh {
namespace {
using Ptr = std::unique_ptr<mp4::Box>;

std::string as_str(const Bytes& b) { return std::string(b.begin(), b.end()); }

// an empty box of the type as the reader creates it
Ptr fresh(const Type4& t) {
  thread_local mp4::BoxMap* map = [] {
    auto m = new mp4::BoxMap();
    mp4::register_box_map(m);
    return m;
  }();
  return Ptr(map->getBoxInstance(mp4::BoxType(t)));
}

BoxCase pick(Rng& r, std::uint64_t c, bool& big) {
  big = c % 113 == 7;
  const auto& k = kinds()[c % kinds().size()];
  if (big) {
    BigLists b;
    if (r.chance(1, 20)) return gen_unsupported(r);
    // kinds whose counts cross the 16-bit boundary
    static const std::vector<std::string> names{"stco", "co64", "stsz", "stts", "stsc", "stss", "ctts", "trun", "sidx",
                                             "sbgp", "sdtp", "opaque", "tfra", "av1C", "data", "colr", "emsg",
                                                    "hdlr", "url", "urn", "sgpd", "elst", "pssh", "ftyp", "esds", "sgpd"};
    return gen_kind(names[c / 113 % names.size()], r);
  }
  if (r.chance(1, 40)) return gen_unsupported(r);
  return k.gen(r);
}

std::string where(const BoxCase& c) { return as_string(c.type) + " (" + c.variant + ")"; }

// the bytes of the whole box, size field included
Bytes whole(const BoxCase& c) {
  Enc e;
  e.u32(8 + c.payload.size()).raw(c.type).raw(c.payload);
  return e.b;
}

// what may follow the payload inside the box: child boxes, which are not the box's own to read
Bytes children(Ctx& ctx, Rng& r, const BoxCase& c) {
  Bytes t;
  if (!c.container || r.flag()) return t;
  for (std::size_t i = r.range(1, 3); i > 0; --i) {
    BoxCase k = r.flag() ? gen_container("edts") : gen_box(r);
    if (k.payload.size() > 2000) k = gen_container("moov");
    const Bytes w = whole(k);
    t.insert(t.end(), w.begin(), w.end());
  }
  ctx.count("boxes_followed_by_children");
  return t;
}

void observe(Ctx& ctx, const BoxCase& c) {
  ctx.count("boxes");
  ctx.count("kind." + c.variant.substr(0, c.variant.find('.')));
  if (c.payload.size() > 65535) ctx.count("over_64k." + c.variant.substr(0, c.variant.find('.')));
  ctx.maxi("payload_bytes", c.payload.size());
  ctx.seen(c.variant + "/" + std::to_string(c.version) + "/" + std::to_string(fnv(c.payload.data(), c.payload.size())));
}

// lists that the field holding their number or length cannot express, and extensions the form of the box has no place
// for: nothing correct can be written
void overlong(Ctx& ctx, Rng& r, std::uint64_t n) {
  const std::size_t more = r.chance(1, 2) ? 1 : r.range(1, 300);
  std::string what;
  Ptr b;
  using namespace mp4::box;
  const AVCParameterSet set({.nal_unit = {0x67, 1, 2}});
  bool refused = false;
  std::size_t got = 0;
  try {
  switch (n % 11) {
    case 0:
      what = "sidx references";
      b.reset(new Sidx({.references = std::vector<SidxReference>(0xffff + more)}));
      break;
    case 1:
      what = "vpcC initialization data";
      b.reset(new VPCodecConfiguration({.version = 1, .codec_initialization_data = Bytes(0xffff + more)}));
      break;
    case 2:
      what = "avcC sequence parameter sets";
      b.reset(new AVCDecoderConfiguration({.profile = 0x42, .sequence_parameter_sets = std::vector<AVCParameterSet>(0x1f + more, set)}));
      break;
    case 3:
      what = "avcC picture parameter sets";
      b.reset(new AVCDecoderConfiguration({.profile = 0x42, .picture_parameter_sets = std::vector<AVCParameterSet>(0xff + more, set)}));
      break;
    case 4:
      what = "avcC parameter set extensions";
      b.reset(new AVCDecoderConfiguration({.profile = 0x64,
                                           .high_profile_fields_enabled = true,
                                           .sequence_parameter_sets_ext = std::vector<AVCParameterSet>(0xff + more, set)}));
      break;
    case 5:
      what = "bytes of an avcC parameter set";
      b.reset(new AVCDecoderConfiguration({.profile = 0x42, .sequence_parameter_sets = {AVCParameterSet({.nal_unit = Bytes(0xffff + more)})}}));
      break;
    case 6:
      what = "QuickTime extension of a sample entry that is not QuickTime";
      b.reset(new AudioSampleEntry({.type = mp4::BoxType("mp4a"),
                                    .entry_version = static_cast<std::uint16_t>(r.below(3)),
                                    .quick_time_data = Bytes(more)}));
      break;
    case 7:
    case 8: {
      const bool v2 = n % 11 == 8;
      what = v2 ? "QuickTime extension of a version 2 sample entry" : "QuickTime extension of a version 1 sample entry";
      std::size_t len = r.below(80);
      if (len == (v2 ? 36U : 16U)) ++len;
      b.reset(new AudioSampleEntry({.type = mp4::BoxType("mp4a"),
                                    .entry_version = static_cast<std::uint16_t>(v2 ? 2 : 1),
                                    .is_quick_time_compatible = true,
                                    .quick_time_data = Bytes(len)}));
      break;
    }
    case 9: {
      what = "High profile fields of an avcC of another profile";
      b.reset(new AVCDecoderConfiguration({.profile = r.pick(Bytes{66, 77, 88}), .high_profile_fields_enabled = true}));
      break;
    }
    default:
      what = "characters of an esds URL";
      b.reset(new Esds({.descriptors = {std::make_shared<ESDescriptor>(ESDescriptorParameters{.url_flag = true, .url_string = Bytes(0xff + more)})}}));
  }
    got = lib_write_data(*b).size();
  } catch (const std::exception&) {
    refused = true;
  }
  ctx.count("overlong_lists");
  ctx.check(refused, "overlong." + what, [&] { return strf("%s that the box has no place for (%zu too many): written as %zu bytes", what.c_str(), more, got); });
}

// lists of just as many elements as the field holding their number can express are written, and are read as written
void longest(Ctx& ctx, std::uint64_t n) {
  using namespace mp4::box;
  const AVCParameterSet set({.nal_unit = {0x67, 1, 2}});
  std::string what;
  Ptr b;
  Enc e;
  std::size_t at = 0;
  switch (n % 7) {
    case 0:
      what = "65535 sidx references";
      b.reset(new Sidx({.references = std::vector<SidxReference>(0xffff)}));
      e.u16(0xffff), at = 22;
      break;
    case 1:
      what = "65535 bytes of vpcC initialization data";
      b.reset(new VPCodecConfiguration({.version = 1, .codec_initialization_data = Bytes(0xffff)}));
      e.u16(0xffff), at = 10;
      break;
    case 2:
      what = "31 avcC sequence parameter sets";
      b.reset(new AVCDecoderConfiguration({.profile = 0x42, .sequence_parameter_sets = std::vector<AVCParameterSet>(0x1f, set)}));
      e.u8(0xff), at = 5;
      break;
    case 3:
      what = "255 avcC picture parameter sets";
      b.reset(new AVCDecoderConfiguration({.profile = 0x42, .picture_parameter_sets = std::vector<AVCParameterSet>(0xff, set)}));
      e.u8(0xff), at = 6;
      break;
    case 4:
      what = "255 avcC parameter set extensions";
      b.reset(new AVCDecoderConfiguration(
          {.profile = 0x64, .high_profile_fields_enabled = true, .sequence_parameter_sets_ext = std::vector<AVCParameterSet>(0xff, set)}));
      e.u8(0xff), at = 10;
      break;
    case 5:
      what = "65535 bytes of an avcC parameter set";
      b.reset(new AVCDecoderConfiguration({.profile = 0x42, .sequence_parameter_sets = {AVCParameterSet({.nal_unit = Bytes(0xffff)})}}));
      e.u16(0xffff), at = 6;
      break;
    default:
      what = "255 characters of an esds URL";
      b.reset(new Esds({.descriptors = {std::make_shared<ESDescriptor>(ESDescriptorParameters{.url_flag = true, .url_string = Bytes(0xff)})}}));
      e.u8(0xff), at = 12;
  }
  std::string error;
  Bytes got;
  try {
    got = lib_write_data(*b);
  } catch (const std::exception& ex) {
    error = ex.what();
  }
  ctx.count("longest_lists");
  ctx.check(error.empty() && got.size() == b->getDataSize() && got.size() >= at + e.b.size() && std::equal(e.b.begin(), e.b.end(), got.begin() + static_cast<long>(at)),
            "longest." + what, [&] { return fmt::format("{}: {} bytes written ({})", what, got.size(), error); });
}

void c03(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (n % 40 == 11) overlong(ctx, r, n / 40);
  if (n % 40 == 31) longest(ctx, n / 40);
  bool big;
  const BoxCase c = pick(r, n, big);
  observe(ctx, c);
  Ptr b(c.make());
  if (c.variant == "unsupported") return;
  const Bytes got = lib_write_data(*b);
  ctx.check(got == c.payload, "layout." + c.variant, [&] {
    return where(c) + ": payload differs from the specified layout: " + diff_bytes(got, c.payload) + " values: " +
           c.dump.substr(0, 300);
  });
  // inside a file: header, then payload
  std::stringstream os;
  const std::uint64_t at = r.chance(1, 3) ? r.below(300) : 0;
  os << std::string(at, '#');
  b->setOffsetAndDataSize(at, c.payload.size());
  b->write(os);
  const std::string s = os.str();
  const Bytes w(s.begin() + static_cast<long>(at), s.end());
  ctx.check(w == whole(c), "box." + c.variant,
            [&] { return where(c) + ": box bytes differ: " + diff_bytes(w, whole(c)); });
  ctx.check(b->getType() == mp4::BoxType(c.type), "type." + c.variant,
            [&] { return where(c) + ": type is " + b->getType().toString(); });
  if (n < 3) ctx.sample(where(c) + " = " + hex(c.payload, 48));
}

// Forms of descriptors other programs write and this library does not: lengths in fewer (or more) than four bytes,
// descriptors it has no class for.
struct Foreign {
  Type4 type{};
  std::string variant, dump;  // no dump: not compared
  Bytes payload;
};

void put_length(Bytes& b, std::uint64_t len, unsigned bytes) {
  for (unsigned k = bytes; k-- > 0;)
    b.push_back(static_cast<std::uint8_t>((k < 9 ? (len >> (7 * k)) & 0x7f : 0) | (k ? 0x80 : 0)));
}

void descriptor(Rng& r, Bytes& to, std::uint8_t tag, const Bytes& body, std::string& forms) {
  unsigned least = 1;
  while (least < 4 && body.size() >> (7 * least)) ++least;
  const unsigned n = r.chance(1, 12) ? static_cast<unsigned>(r.range(5, 12)) : static_cast<unsigned>(r.range(least, 4));
  to.push_back(tag);
  put_length(to, body.size(), n);
  to.insert(to.end(), body.begin(), body.end());
  forms += n < 4 ? "s" : n > 4 ? "l" : "4";
}

void unknown_descriptors(Rng& r, Bytes& to, std::string& forms) {
  for (std::uint64_t k = r.range(1, 3); k; --k) {
    std::uint8_t tag = r.u8();
    if (tag < 7) tag = static_cast<std::uint8_t>(7 + tag);
    const Bytes body = r.bytes(r.chance(1, 6) ? r.range(100, 300) : r.below(20));
    descriptor(r, to, tag, body, forms);
  }
}

Foreign foreign(Rng& r) {
  Foreign f;
  const auto put = [](Bytes& b, std::uint64_t v, unsigned n) {
    while (n--) b.push_back(static_cast<std::uint8_t>(v >> (8 * n)));
  };
  std::string forms;
  if (r.chance(1, 4)) {
    f.type = t4("iods");
    const auto v = r.u8(), a = r.u8(), b = r.u8(), c = r.u8(), d = r.u8(), g = r.u8();
    const auto fl = static_cast<std::uint32_t>(r.edge(24));
    const auto od = r.u16();
    Bytes body;
    put(body, od, 2);
    for (auto x : {a, b, c, d, g}) body.push_back(x);
    const bool extra = r.chance(2, 3);
    if (extra) unknown_descriptors(r, body, forms);  // ES_ID_Inc and the like
    f.payload.push_back(v);
    put(f.payload, fl, 3);
    const auto tag = static_cast<std::uint8_t>(r.flag() ? 0x10 : r.u8());
    descriptor(r, f.payload, tag, body, forms);
    f.dump = fmt::format(
        "Version={} Flags={:#08x} TypeTag={:#x} ODID={} ODProfileLevel={:#x} SceneProfileLevel={:#x} AudioProfileLevel={:#x} "
        "VideoProfileLevel={:#x} GraphicsProfileLevel={:#x}",
        v, fl, tag, od, a, b, c, d, g);
    f.variant = extra ? "iods.more" : "iods";
    return f;
  }
  f.type = t4("esds");
  const auto esid = r.u16(), dep = r.u16(), ocr = r.u16();
  const bool fd = r.chance(1, 3), fu = r.chance(1, 3), fo = r.chance(1, 3);
  const auto prio = static_cast<std::int8_t>(r.sedge(5));
  const std::string url(r.below(40), 'u');
  const bool with_dsi = r.chance(3, 4), with_sl = r.chance(3, 4), in_dc = r.chance(1, 4), last = r.chance(1, 3);
  const Bytes dsi = r.bytes(r.chance(1, 5) ? r.range(120, 300) : r.chance(1, 20) ? r.range(16380, 16390) : r.below(12));
  const Bytes sl = r.bytes(r.chance(1, 2) ? 1 : r.below(12));
  // from the inside out
  Bytes dc;
  dc.push_back(r.u8());
  const auto oti = dc[0];
  const auto st = static_cast<std::int8_t>(r.sedge(6));
  const bool up = r.flag(), res = r.flag();
  dc.push_back(static_cast<std::uint8_t>((st & 63) << 2 | (up ? 2 : 0) | (res ? 1 : 0)));
  const auto buf = static_cast<std::uint32_t>(r.edge(24)), mx = r.u32(), av = r.u32();
  put(dc, buf, 3), put(dc, mx, 4), put(dc, av, 4);
  if (with_dsi) descriptor(r, dc, 5, dsi, forms);
  if (in_dc) unknown_descriptors(r, dc, forms);  // profile and level indications
  Bytes es;
  put(es, esid, 2);
  es.push_back(static_cast<std::uint8_t>((fd ? 0x80 : 0) | (fu ? 0x40 : 0) | (fo ? 0x20 : 0) | (prio & 31)));
  if (fd) put(es, dep, 2);
  if (fu) es.push_back(static_cast<std::uint8_t>(url.size())), es.insert(es.end(), url.begin(), url.end());
  if (fo) put(es, ocr, 2);
  const std::size_t es_own = es.size();
  descriptor(r, es, 4, dc, forms);
  if (with_sl) descriptor(r, es, 6, sl, forms);
  if (last) unknown_descriptors(r, es, forms);
  put(f.payload, 0, 4);
  descriptor(r, f.payload, 3, es, forms);
  if (!in_dc) {
    std::string s = fmt::format(
        "Version=0 Flags=0x000000 Descriptors=[{{Tag=ESDescr DataSize={} DataSizeWithSubDescriptors={} ESID={} "
        "StreamDependenceFlag={} UrlFlag={} OcrStreamFlag={} StreamPriority={}",
        es_own, es.size(), esid, fd, fu, fo, prio);
    if (fd) s += fmt::format(" DependsOnESID={}", dep);
    if (fu) s += fmt::format(" URLLength={:#x} URLString=\"{}\"", url.size(), url);
    if (fo) s += fmt::format(" OCRESID={}", ocr);
    s += fmt::format(
        "}}, {{Tag=DecoderConfigDescr DataSize=13 DataSizeWithSubDescriptors={} ObjectTypeIndication={:#x} StreamType={} "
        "UpStream={} Reserved={} BufferSizeDB={} MaxBitrate={} AvgBitrate={}}}",
        dc.size(), oti, st, up, res, buf, mx, av);
    if (with_dsi) s += fmt::format(", {{Tag=DecSpecificInfo DataSize={} Data=[{:#x}]}}", dsi.size(), fmt::join(dsi, ", "));
    if (with_sl) s += fmt::format(", {{Tag=SLConfigDescr DataSize={} Data=[{:#x}]}}", sl.size(), fmt::join(sl, ", "));
    f.dump = s + "]";
  }
  f.variant = std::string("esds") + (in_dc ? ".inner" : "") + (last ? ".last" : "");
  return f;
}

void c04_foreign(Ctx& ctx, Rng& r) {
  const Foreign f = foreign(r);
  ctx.count("foreign_descriptors");
  ctx.seen("foreign." + f.variant + std::to_string(f.payload.size()));
  Ptr b = fresh(f.type);
  if (r.chance(1, 3)) {
    const Foreign o = foreign(r);
    if (o.type == f.type) {
      std::istringstream i(as_str(o.payload));
      b->readData(i);
    }
  }
  std::istringstream is(as_str(f.payload));
  const std::uint64_t used = b->readData(is);
  const auto what = [&] { return f.variant + " " + hex(f.payload, 200) + ": "; };
  ctx.check(used == 8 * f.payload.size(), "foreign-bits." + f.variant,
            [&] { return what() + strf("%zu bytes, %llu bits read", f.payload.size(), static_cast<unsigned long long>(used)); });
  const std::string dump = b->toStringOnlyData();
  ctx.check(f.dump.empty() || dump == f.dump, "foreign-values." + f.variant, [&] { return what() + diff_text(dump, f.dump); });
  std::uint64_t bits = 0;
  const Bytes w = lib_write_data(*b, &bits);
  ctx.check(w == f.payload, "foreign-rewrite." + f.variant, [&] { return what() + "rewritten: " + diff_bytes(w, f.payload); });
  ctx.check(bits == 8 * w.size() && b->getDataSize() == w.size(), "foreign-size." + f.variant, [&] {
    return what() + strf("declares %llu bytes, reports %llu bits, writes %zu bytes", static_cast<unsigned long long>(b->getDataSize()),
                         static_cast<unsigned long long>(bits), w.size());
  });
}

void c04(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (n % 16 == 5) c04_foreign(ctx, r);
  bool big;
  const BoxCase c = pick(r, n, big);
  observe(ctx, c);
  const bool unsup = c.variant == "unsupported";
  Ptr b = fresh(c.type);
  const Bytes tail = children(ctx, r, c);
  std::istringstream is(as_str(c.payload) + as_str(tail));
  const std::uint64_t used = b->readData(is);
  ctx.check(used == 8 * c.payload.size(), "own-bits." + c.variant, [&] {
    return where(c) + strf(": %zu bytes followed by %zu bytes of child boxes: %llu bits read", c.payload.size(), tail.size(),
                           static_cast<unsigned long long>(used));
  });
  const std::string dump = b->toStringOnlyData();
  const std::string& want = c.read_dump.empty() ? c.dump : c.read_dump;
  ctx.check(dump == want, "values." + c.variant,
            [&] { return where(c) + ": values after reading: " + diff_text(dump, want); });
  const Bytes again = lib_write_data(*b);
  ctx.check(again == c.payload, "rewrite." + c.variant,
            [&] { return where(c) + ": rewritten payload differs: " + diff_bytes(again, c.payload); });
  // written from values, read back: same values
  Ptr a(c.make());
  if (c.read_dump.empty()) {
    const std::string built = a->toStringOnlyData();
    ctx.check(built == c.dump, "built." + c.variant,
              [&] { return where(c) + ": values as constructed: " + diff_text(built, c.dump); });
  }
  if (!unsup) {
    const Bytes w = lib_write_data(*a);
    Ptr d = fresh(c.type);
    std::istringstream is2(as_str(w));
    d->readData(is2);
    ctx.check(d->toStringOnlyData() == want, "written-read." + c.variant, [&] {
      return where(c) + ": written and read back: " + diff_text(d->toStringOnlyData(), want);
    });
  }
  // a box that held something else before holds afterwards what was read, and nothing of what it held
  if (!unsup && !big) {
    BoxCase o = kinds()[n % kinds().size()].gen(r);
    for (int i = 0; i < 4 && o.type != c.type; ++i) o = kinds()[n % kinds().size()].gen(r);
    if (o.type == c.type) {
      Ptr f = r.flag() ? fresh(o.type) : Ptr(o.make());
      std::istringstream i1(as_str(o.payload)), i2(as_str(c.payload));
      f->readData(i1);
      const std::uint64_t u2 = f->readData(i2);
      ctx.count("boxes_read_into_again");
      const Bytes w2 = lib_write_data(*f);
      ctx.check(u2 == 8 * c.payload.size() && w2 == c.payload && f->toStringOnlyData() == want, "reread." + c.variant, [&] {
        return where(c) + " read into a box that held " + o.dump.substr(0, 200) + ": " +
               (w2 == c.payload ? diff_text(f->toStringOnlyData(), want) : diff_bytes(w2, c.payload));
      });
    }
  }
  if (n < 3) ctx.sample(where(c) + " " + c.dump.substr(0, 150));
}

// bytes as another program may write them: another version, other flags, other values; what is accepted is accounted for
void c05_foreign(Ctx& ctx, Rng& r, const BoxCase& c) {
  Bytes p = c.payload;
  if (p.empty() || p.size() > 20000) return;
  if (c.full && r.chance(3, 4)) {
    if (r.chance(2, 3)) p[0] = r.flag() ? static_cast<std::uint8_t>(r.below(4)) : r.u8();
    if (r.chance(1, 3)) p[r.range(1, 3)] ^= static_cast<std::uint8_t>(1U << r.below(8));
  }
  if (r.chance(1, 2) || !c.full) p[r.below(p.size())] = r.flag() ? r.u8() : static_cast<std::uint8_t>(r.below(3));
  // entries without any field cost nothing in the bytes; how many a box may claim is C02's affair
  if (c.type == t4("trun") && p.size() > 3 && !(p[2] & 0x0f)) return;
  Ptr b = fresh(c.type);
  std::istringstream is(as_str(p));
  std::uint64_t rbits = 0, bits = 0;
  Bytes w;
  std::uint64_t declared = 0;
  try {
    rbits = b->readData(is);
    is.clear();
    declared = b->getDataSize();
    w = lib_write_data(*b, &bits);
  } catch (const std::exception&) {
    return;
  }
  ctx.count("foreign_boxes");
  const auto pos = static_cast<std::uint64_t>(is.tellg());
  // up to three bytes after a high profile configuration, too few for its fields, are skipped and counted as read
  const bool skipped = c.type == t4("avcC") && pos < p.size() && p.size() - pos < 4 && rbits == 8 * p.size();
  ctx.check((rbits == 8 * pos && pos <= p.size()) || skipped, "foreign-read." + c.variant, [&] {
    return strf("%s read from %s: reports %llu bits, stands at %llu", as_string(c.type).c_str(), hex(p, 40).c_str(),
                static_cast<unsigned long long>(rbits), static_cast<unsigned long long>(pos));
  });
  ctx.check(declared == w.size() && bits == 8 * w.size(), "foreign-size." + c.variant, [&] {
    return strf("%s read from %s: declares %llu bytes, reports %llu bits, writes %zu bytes", as_string(c.type).c_str(), hex(p, 40).c_str(),
                static_cast<unsigned long long>(declared), static_cast<unsigned long long>(bits), w.size());
  });
}

void c05(Ctx& ctx, Rng& r, std::uint64_t n) {
  bool big;
  const BoxCase c = pick(r, n, big);
  observe(ctx, c);
  Ptr b(c.make());
  const std::uint64_t declared = b->getDataSize();
  std::uint64_t bits = 0;
  const Bytes w = lib_write_data(*b, &bits);
  ctx.check(declared == w.size(), "declared." + c.variant, [&] {
    return where(c) + strf(": declares %llu bytes, writes %zu", static_cast<unsigned long long>(declared), w.size());
  });
  ctx.check(bits == 8 * w.size(), "written-bits." + c.variant, [&] {
    return where(c) + strf(": reports %llu bits written, wrote %zu bytes", static_cast<unsigned long long>(bits), w.size());
  });
  // reading from the middle of a stream that ends with the box
  Ptr d = fresh(c.type);
  const std::uint64_t at = r.chance(1, 3) ? r.below(40) : 0;
  const Bytes tail = children(ctx, r, c);
  std::istringstream is(std::string(at, '\x55') + as_str(c.payload) + as_str(tail));
  is.seekg(static_cast<std::streamoff>(at));
  const std::uint64_t rbits = d->readData(is);
  ctx.check(rbits == 8 * c.payload.size(), "read-bits." + c.variant, [&] {
    return where(c) + strf(": reports %llu bits read of %zu bytes", static_cast<unsigned long long>(rbits), c.payload.size());
  });
  is.clear();
  const auto pos = static_cast<std::uint64_t>(is.tellg());
  ctx.check(pos == at + c.payload.size(), "read-position." + c.variant, [&] {
    return where(c) + strf(": stands at %llu after reading %zu bytes from %llu on", static_cast<unsigned long long>(pos),
                           c.payload.size(), static_cast<unsigned long long>(at));
  });
  if (c.read_dump.empty() || c.variant == "stsz.constant") {
    ctx.check(d->getDataSize() == c.payload.size(), "declared-after-read." + c.variant, [&] {
      return where(c) + strf(": declares %llu bytes after reading %zu",
                             static_cast<unsigned long long>(d->getDataSize()), c.payload.size());
    });
  }
  c05_foreign(ctx, r, c);
  // header size field
  std::ostringstream os;
  const std::uint64_t hs = b->getHeaderSize();
  b->setOffsetAndDataSize(0, b->getDataSize());
  b->write(os);
  const std::string s = os.str();
  const std::uint64_t field = s.size() < 4 ? 0 : (static_cast<std::uint64_t>(static_cast<std::uint8_t>(s[0])) << 24 |
                                                  static_cast<std::uint64_t>(static_cast<std::uint8_t>(s[1])) << 16 |
                                                  static_cast<std::uint64_t>(static_cast<std::uint8_t>(s[2])) << 8 |
                                                  static_cast<std::uint8_t>(s[3]));
  ctx.check(field == s.size() && b->getSize() == s.size() && hs + w.size() == s.size(), "header-size." + c.variant, [&] {
    return where(c) + strf(": header says %llu, getSize %llu, %zu bytes written", static_cast<unsigned long long>(field),
                           static_cast<unsigned long long>(b->getSize()), s.size());
  });
  // the compact forms of a descriptor length other programs write are consumed exactly as well
  if (c.type == t4("esds")) {
    Bytes p(c.payload.begin(), c.payload.begin() + 4);
    std::size_t i = 4;
    // rewrite each length with the shortest encoding
    const Bytes& o = c.payload;
    while (i + 5 <= o.size()) {
      const std::uint8_t tag = o[i];
      const std::uint32_t len = static_cast<std::uint32_t>((o[i + 1] & 0x7f) << 21 | (o[i + 2] & 0x7f) << 14 |
                                                           (o[i + 3] & 0x7f) << 7 | (o[i + 4] & 0x7f));
      p.push_back(tag);
      bool on = false;
      for (int k = 3; k >= 0; --k) {
        const std::uint8_t q = static_cast<std::uint8_t>((len >> (7 * k)) & 0x7f);
        if (q || on || k == 0) {
          p.push_back(static_cast<std::uint8_t>(q | (k ? 0x80 : 0)));
          on = true;
        }
      }
      i += 5;
      std::size_t own = len;
      if (tag == 4) own = 13;
      if (tag == 3) {
        own = 3;
        const std::uint8_t fl = o[i + 2];
        if (fl & 0x80) own += 2;
        if (fl & 0x40) own += 1U + o[i + own];
        if (fl & 0x20) own += 2;
      }
      p.insert(p.end(), o.begin() + static_cast<long>(i), o.begin() + static_cast<long>(i + own));
      i += own;
    }
    Ptr q = fresh(c.type);
    std::istringstream is3(as_str(p));
    const std::uint64_t b3 = q->readData(is3);
    ctx.count("compact_descriptor_lengths");
    ctx.check(b3 == 8 * p.size(), "read-bits.esds-compact", [&] {
      return strf("esds with minimal descriptor lengths: %llu bits read of %zu bytes", static_cast<unsigned long long>(b3),
                  p.size());
    });
    const Bytes w2 = lib_write_data(*q);
    ctx.check(q->getDataSize() == w2.size(), "declared.esds-compact", [&] {
      return strf("esds with minimal descriptor lengths declares %llu bytes, writes %zu",
                  static_cast<unsigned long long>(q->getDataSize()), w2.size());
    });
  }
  if (n < 3) ctx.sample(where(c) + strf(" declared=%llu", static_cast<unsigned long long>(declared)));
}

void c23(Ctx& ctx, Rng& r, std::uint64_t n) {
  BoxCase c;
  // boxes whose layout does not depend on them, so that any value is legal; and layout-dependent ones via `generate`
  do c = gen_box(r);
  while (c.full == false && r.chance(3, 4));
  observe(ctx, c);
  Ptr b(c.make());
  if (!c.full) {
    // a box without version and flags has none, whatever is asked of it
    const Bytes before = lib_write_data(*b);
    const auto v = r.u8();
    const auto f = static_cast<std::uint32_t>(r.edge(24));
    b->setVersion(v);
    b->setFlags(f);
    b->addFlag(f);
    b->removeFlag(f);
    ctx.count("boxes_without_flags");
    ctx.check(b->getVersion() == 0 && b->getFlags() == 0, "plain-box", [&] {
      return where(c) + strf(": version %u flags %06x on a box without them", b->getVersion(), b->getFlags());
    });
    ctx.check(lib_write_data(*b) == before, "plain-box-bytes",
              [&] { return where(c) + ": setting flags of a box without flags changes its bytes"; });
    return;
  }
  ctx.check(b->getVersion() == c.version && b->getFlags() == c.flags, "constructed." + c.variant, [&] {
    return where(c) + strf(": version %u flags %06x, constructed with %u %06x", b->getVersion(), b->getFlags(), c.version,
                           c.flags);
  });
  std::uint8_t ver = c.version;
  std::uint32_t fl = c.flags;
  std::string history;
  const std::size_t ops = r.range(1, 14);
  for (std::size_t i = 0; i < ops; ++i) {
    const auto f = static_cast<std::uint32_t>(r.edge(24));
    ctx.count("operations");
    switch (r.below(6)) {
      case 0:
        if (c.vf_settable) {
          ver = r.u8();
          b->setVersion(ver);
          history += strf(" setVersion(%u)", ver);
        }
        break;
      case 1:
        b->setFlags(f);
        fl = f;
        history += strf(" setFlags(%06x)", f);
        break;
      case 2:
        b->addFlag(f);
        fl |= f;
        history += strf(" addFlag(%06x)", f);
        break;
      case 3:
        b->removeFlag(f);
        fl &= ~f;
        history += strf(" removeFlag(%06x)", f);
        break;
      case 4: {
        const std::uint32_t one = 1U << r.below(24);
        const bool has = b->checkFlag(one);
        history += strf(" checkFlag(%06x)", one);
        ctx.check(has == ((fl & one) != 0), "checkFlag", [&] {
          return where(c) + strf(": checkFlag(%06x)=%d with flags %06x after", one, has, fl) + history;
        });
        // a set of flags is present when any of them is
        const bool any = b->checkFlag(f);
        ctx.check(any == ((fl & f) != 0), "checkFlag-set", [&] {
          return where(c) + strf(": checkFlag(%06x)=%d with flags %06x after", f, any, fl) + history;
        });
        break;
      }
      default: {  // through bytes
        if (!c.vf_settable) break;
        const Bytes w = lib_write_data(*b);
        Ptr d = fresh(c.type);
        std::istringstream is(as_str(w));
        d->readData(is);
        b = std::move(d);
        history += " write+read";
        ctx.count("through_bytes");
      }
    }
    if (!ctx.check(b->getFlags() == fl && b->getVersion() == ver, "state." + as_string(c.type), [&] {
          return where(c) + strf(": version %u flags %06x, expected %u %06x after", b->getVersion(), b->getFlags(), ver, fl) +
                 history;
        }))
      return;
  }
  if (c.vf_settable) {
    const Bytes w = lib_write_data(*b);
    Bytes want = c.payload;
    want[0] = ver;
    want[1] = static_cast<std::uint8_t>(fl >> 16);
    want[2] = static_cast<std::uint8_t>(fl >> 8);
    want[3] = static_cast<std::uint8_t>(fl);
    ctx.check(w == want, "bytes." + as_string(c.type), [&] {
      return where(c) + ": version and flags in the bytes: " + diff_bytes(w, want) + " after" + history;
    });
  }
  const std::string head = vf(ver, fl);
  ctx.check(b->toStringOnlyData().substr(0, head.size()) == head, "dump." + as_string(c.type), [&] {
    return where(c) + ": dump shows " + b->toStringOnlyData().substr(0, 40) + " expected " + head;
  });
  ctx.seen(as_string(c.type) + history);
  if (n < 3) ctx.sample(where(c) + history);
}

Register r3("C03", c03), r4("C04", c04), r5("C05", c05), r23("C23", c23);
}  // namespace
}  // namespace vh
