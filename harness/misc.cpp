// C22 times, C24 registry of box types, C25 run-length sample tables.
#include <time.h>

#include <cstdlib>
#include <memory>
#include <optional>
#include <sstream>
#include <typeinfo>

#include "gen.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/track/track.hpp"

namespace vh {
namespace {

constexpr std::uint64_t kUnix = 2082844800ULL, kLast = kUnix + 0xffffffffULL;

// one case: 64 consecutive days, so that the run visits every day of the supported range
void c22(Ctx& ctx, Rng& r, std::uint64_t n) {
  static const char* zones[] = {"UTC", "Asia/Tokyo", "America/New_York", "XYZ-14", "ABC+12:30", "EST5EDT", "right/UTC", ":bad", ""};
  const char* z = zones[r.below(9)];
  ::setenv("TZ", z, 1);
  ::tzset();
  const auto one = [&](std::uint64_t t) {
    const std::string got = mp4::time::format_epoch_19040101(t), want = time_text(t);
    ctx.check(got == want, t > kLast ? "placeholder" : "text", [&] {
      return strf("%llu with TZ=%s is printed as %s, expected %s", static_cast<unsigned long long>(t), z, got.c_str(), want.c_str());
    });
  };
  const std::uint64_t days = kLast / 86400 + 1;
  const std::uint64_t blocks = (days + 63) / 64;
  const std::uint64_t first = (n % blocks) * 64;
  if (n < blocks) ctx.count("days_visited", std::min<std::uint64_t>(64, days - first));
  for (std::uint64_t d = first; d < first + 64 && d < days + 2; ++d) {
    one(d * 86400);
    one(d * 86400 + 86399);
    one(d * 86400 + r.below(86400));
  }
  // consecutive seconds from 1904 on and from 1970 on, and around the limits of 31 and 32 bits in both counts
  for (std::uint64_t k = 0; k < 64; ++k) {
    one(n % 2048 * 64 + k);
    one(kUnix + n % 2048 * 64 + k);
    one((n % 2 ? 0x80000000ULL : 0x100000000ULL) + (n / 2 % 2 ? kUnix : 0) - 32 + k - (n % 4 == 2 ? 32 : 0));
  }
  ctx.count("consecutive_seconds", 128);
  one(kLast - r.below(3));
  one(kLast + 1 + (r.flag() ? 0 : r.below(1ULL << r.range(1, 62))));
  one(r.next() | (1ULL << 63));
  one(~0ULL - r.below(4));
  one(r.below(kLast));
  const std::uint64_t u = r.flag() ? r.below(1ULL << 33) : r.edge(62);
  ctx.check(mp4::time::convert_to_epoch_19040101(u) == u + kUnix, "convert", [&] {
    return strf("%llu converts to %llu", static_cast<unsigned long long>(u),
                static_cast<unsigned long long>(mp4::time::convert_to_epoch_19040101(u)));
  });
  if (u < 0xffffffffULL) {
    time_t tt = static_cast<time_t>(u);
    std::tm tm;
    gmtime_r(&tt, &tm);
    char buf[40];
    strftime(buf, sizeof buf, "%Y-%m-%dT%H:%M:%SZ", &tm);
    const std::string got = mp4::time::format_epoch_19040101(mp4::time::convert_to_epoch_19040101(u));
    if (std::string(z) != "right/UTC")
      ctx.check(got == buf, "unix", [&] { return strf("Unix time %llu is printed as %s, expected %s", static_cast<unsigned long long>(u), got.c_str(), buf); });
  }
  ctx.seen(strf("%llu/%s", static_cast<unsigned long long>(first), z));
  if (n < 4) ctx.sample(strf("day %llu is %s (TZ=%s)", static_cast<unsigned long long>(first), time_text(first * 86400).c_str(), z));
}

struct Row {
  const char* type;
  const std::type_info* cls;
  std::vector<std::uint8_t> versions;  // empty: any
};

const std::vector<Row>& table() {
  using namespace mp4::box;
  static const std::vector<Row> t = [] {
    std::vector<Row> v{
        {"btrt", &typeid(Btrt), {}}, {"co64", &typeid(Co64), {0}}, {"colr", &typeid(Colr), {}}, {"ctts", &typeid(Ctts), {0, 1}},
        {"data", &typeid(Data), {}}, {"dinf", &typeid(Dinf), {}}, {"dOps", &typeid(DOps), {}}, {"dref", &typeid(Dref), {0}},
        {"edts", &typeid(Edts), {}}, {"elst", &typeid(Elst), {0, 1}}, {"emsg", &typeid(Emsg), {0, 1}}, {"esds", &typeid(Esds), {0}},
        {"fiel", &typeid(Fiel), {}}, {"free", &typeid(Free), {}}, {"ftyp", &typeid(Ftyp), {}}, {"hdlr", &typeid(Hdlr), {0}},
        {"ilst", &typeid(Ilst), {}}, {"iods", &typeid(Iods), {0}}, {"mdat", &typeid(Mdat), {}}, {"mdhd", &typeid(Mdhd), {0, 1}},
        {"mdia", &typeid(Mdia), {}}, {"mehd", &typeid(Mehd), {0, 1}}, {"meta", &typeid(Meta), {0}}, {"mfhd", &typeid(Mfhd), {0}},
        {"mfra", &typeid(Mfra), {}}, {"mfro", &typeid(Mfro), {0}}, {"minf", &typeid(Minf), {}}, {"moof", &typeid(Moof), {}},
        {"moov", &typeid(Moov), {}}, {"mvex", &typeid(Mvex), {}}, {"mvhd", &typeid(Mvhd), {0, 1}}, {"pssh", &typeid(Pssh), {0, 1}},
        {"sbgp", &typeid(Sbgp), {0, 1}}, {"schi", &typeid(Schi), {}}, {"sdtp", &typeid(Sdtp), {0}}, {"sgpd", &typeid(Sgpd), {1, 2}},
        {"sidx", &typeid(Sidx), {0, 1}}, {"sinf", &typeid(Sinf), {}}, {"skip", &typeid(Skip), {}}, {"smhd", &typeid(Smhd), {0}},
        {"stbl", &typeid(Stbl), {}}, {"stco", &typeid(Stco), {}}, {"stsc", &typeid(Stsc), {0}}, {"stsd", &typeid(Stsd), {0}},
        {"stss", &typeid(Stss), {0}}, {"stsz", &typeid(Stsz), {0}}, {"stts", &typeid(Stts), {0}}, {"styp", &typeid(Styp), {}},
        {"tfdt", &typeid(Tfdt), {0, 1}}, {"tfhd", &typeid(Tfhd), {0}}, {"tfra", &typeid(Tfra), {0, 1}}, {"tkhd", &typeid(Tkhd), {0, 1}},
        {"traf", &typeid(Traf), {}}, {"trak", &typeid(Trak), {}}, {"trex", &typeid(Trex), {0}}, {"trun", &typeid(Trun), {0, 1}},
        {"udta", &typeid(Udta), {}}, {"vmhd", &typeid(Vmhd), {0}}, {"url ", &typeid(Url), {0}}, {"urn ", &typeid(Urn), {0}},
        {"wave", &typeid(Wave), {0}}, {"avc1", &typeid(VisualSampleEntry), {0}}, {"encv", &typeid(VisualSampleEntry), {0}},
        {"vp08", &typeid(VisualSampleEntry), {0}}, {"vp09", &typeid(VisualSampleEntry), {0}}, {"vp10", &typeid(VisualSampleEntry), {0}},
        {"av01", &typeid(VisualSampleEntry), {0}}, {"mp4a", &typeid(AudioSampleEntry), {0}}, {"enca", &typeid(AudioSampleEntry), {0}},
        {"Opus", &typeid(AudioSampleEntry), {0}}, {"avcC", &typeid(AVCDecoderConfiguration), {0}},
        {"vpcC", &typeid(VPCodecConfiguration), {1, 0}}, {"av1C", &typeid(AV1CodecConfiguration), {}},
        {"pasp", &typeid(PixelAspectRatio), {0}}};
    for (const char* s : {"----", "aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt", "desc", "disk", "egid", "geID",
                          "gnre", "pcst", "pgap", "plID", "purd", "purl", "rtng", "sfID", "soaa", "soal", "soar", "soco", "sonm", "sosn",
                          "stik", "tmpo", "trkn", "tven", "tves", "tvnn", "tvsh", "tvsn", "\xa9" "ART", "\xa9" "alb", "\xa9" "cmt",
                          "\xa9" "com", "\xa9" "day", "\xa9" "gen", "\xa9" "grp", "\xa9" "nam", "\xa9" "too", "\xa9" "wrt"})
      v.push_back({s, &typeid(IlstMeta), {}});
    return v;
  }();
  return t;
}

void c24(Ctx& ctx, Rng& r, std::uint64_t n) {
  mp4::BoxMap map;
  mp4::register_box_map(&map);
  const auto& tb = table();
  const Row& row = tb[n % tb.size()];
  const mp4::BoxType type(t4(row.type));
  const std::string name = type_text(t4(row.type));
  ctx.count("registry_rows");
  ctx.seen("row " + name);
  ctx.check(map.isSupported(type), "supported", [&] { return name + " is not supported"; });
  {
    std::unique_ptr<mp4::Box> b(map.getBoxInstance(type));
    const mp4::Box& ref = *b;
    ctx.check(typeid(ref) == *row.cls, "class", [&] { return name + " creates a " + typeid(ref).name() + ", expected " + row.cls->name(); });
    ctx.check(b->getType() == type, "carries-type", [&] { return name + " carries type " + b->getType().toString(); });
    std::unique_ptr<mp4::Box> other(map.getBoxInstance(type));
    ctx.check(other.get() != b.get(), "fresh", [&] { return name + ": the same object is returned twice"; });
  }
  if (map.isSupported(type)) {
    auto v = map.getSupportedVersions(type);
    std::set<int> a(v.begin(), v.end()), w(row.versions.begin(), row.versions.end());
    ctx.check(a == w, "versions", [&] { return name + ": supported versions differ"; });
  }
  for (unsigned ver = 0; ver < 256; ++ver) {
    bool want = row.versions.empty();
    for (auto x : row.versions) want |= x == ver;
    ctx.check(map.isSupportedVersion(type, static_cast<std::uint8_t>(ver)) == want, "version",
              [&] { return name + strf(": version %u reported %s", ver, want ? "unsupported" : "supported"); });
  }
  // through a header, as the reader does
  {
    const std::uint64_t off = r.below(1000), size = r.range(8, 1000);
    std::unique_ptr<mp4::Box> b(map.getBoxInstance(new mp4::BoxHeader({.offset = off, .size = size, .header_size = 8, .type = type})));
    const mp4::Box& ref = *b;
    ctx.check(typeid(ref) == *row.cls && b->getSize() == size && b->getType() == type, "header", [&] { return name + " through a header"; });
  }
  for (int i = 0; i < 8; ++i) {
    BoxCase u = [&] {
      std::optional<BigLists> big;
      if (i == 7 && r.chance(1, 20)) {
        big.emplace();
        ctx.count("unknown_boxes_over_64k");
      }
      return gen_unsupported(r);
    }();
    // the wildcard type, and types next to a supported one
    if (i < 4) {
      Type4 t = t4(row.type);
      if (i == 0)
        t = Type4{0, 0, 0, 0};
      else if (i == 1)
        t[r.below(4)] ^= static_cast<std::uint8_t>(1U << r.below(8));
      else if (i == 2)
        t[r.below(4)] = 0;
      else
        std::swap(t[r.below(4)], t[r.below(4)]);
      bool known = false;
      for (const auto& k : tb) known |= t4(k.type) == t;
      if (!known) u.type = t;
    }
    const mp4::BoxType ut(u.type);
    const std::string un = type_text(u.type);
    ctx.count("unknown_types");
    ctx.seen("unknown " + un);
    ctx.check(!map.isSupported(ut) && !map.isSupportedVersion(ut, r.u8()), "unknown-supported", [&] { return un + " is reported as supported"; });
    bool threw = false;
    try {
      map.getSupportedVersions(ut);
    } catch (const std::exception&) {
      threw = true;
    }
    ctx.check(threw, "unknown-versions", [&] { return un + ": versions of an unsupported type"; });
    const std::uint64_t size = 8 + u.payload.size();
    std::unique_ptr<mp4::Box> b(map.getBoxInstance(new mp4::BoxHeader({.offset = 0, .size = size, .header_size = 8, .type = ut})));
    const mp4::Box& ref = *b;
    ctx.check(typeid(ref) == typeid(mp4::box::Unsupported), "unknown-class", [&] { return un + " is parsed as " + typeid(ref).name(); });
    std::istringstream is(std::string(u.payload.begin(), u.payload.end()));
    const std::uint64_t bits = b->readData(is);
    ctx.check(bits == 8 * u.payload.size() && b->getDataSize() == u.payload.size(), "unknown-size",
              [&] { return un + strf(": %zu bytes, %llu bits read", u.payload.size(), static_cast<unsigned long long>(bits)); });
    const std::string want = "[" + un + "] Offset=0 Size=" + std::to_string(size) + " " + u.dump;
    ctx.check(b->toString() == want, "unknown-dump", [&] { return un + ": " + diff_text(b->toString(), want); });
    // written again it is the same box, type included
    std::stringstream os;
    b->write(os);
    Enc e;
    e.u32(size).raw(u.type).raw(u.payload);
    const std::string s = os.str();
    const Bytes got(s.begin(), s.end());
    ctx.check(got == e.b, "unknown-bytes", [&] { return un + ": written again: " + diff_bytes(got, e.b); });
  }
  if (n < 3) ctx.sample(name + " -> " + row.cls->name());
}

void c25(Ctx& ctx, Rng& r, std::uint64_t n) {
  // durations: runs of equal values
  const std::size_t runs = r.chance(1, 20) ? 0 : r.range(1, 12);
  std::vector<std::uint32_t> dur;
  const std::vector<std::uint32_t> pool{0, 1, 2, 1000, 1024, 3003, 0x7fffffff, 0x80000000U, 0xffffffffU, r.u32()};
  for (std::size_t i = 0; i < runs; ++i) {
    const std::uint32_t d = r.pick(pool);
    std::size_t k = r.chance(1, 2) ? 1 : r.range(1, 9);
    if (r.chance(1, 100)) k = 66000;
    dur.insert(dur.end(), k, d);
  }
  std::vector<mp4::box::SttsEntry> e;
  if (r.flag()) e.resize(3);  // the result replaces what was there
  mp4::track::make_stts_entries(&e, dur);
  // only the box shows the values of an entry: decode it from the written table
  const Bytes w = [&] {
    const mp4::box::Stts box({.entries = e});
    return lib_write_data(box);
  }();
  const auto be = [](const Bytes& b, std::size_t at, unsigned k) {
    std::uint64_t v = 0;
    for (unsigned i = 0; i < k; ++i) v = v << 8 | b.at(at + i);
    return v;
  };
  const std::uint64_t cnt = be(w, 4, 4);
  std::vector<std::uint32_t> back;
  bool merged = true, nonempty = true;
  ctx.check(w.size() == 8 + 8 * cnt && cnt == e.size(), "stts-size", [&] { return strf("%zu entries, %zu bytes", e.size(), w.size()); });
  for (std::uint64_t i = 0; i < cnt && back.size() <= dur.size(); ++i) {
    const auto c = be(w, 8 + 8 * i, 4), d = be(w, 12 + 8 * i, 4);
    if (i && d == be(w, 4 + 8 * i, 4)) merged = false;
    if (c == 0) nonempty = false;
    for (std::uint64_t k = 0; k < c && back.size() <= dur.size(); ++k) back.push_back(static_cast<std::uint32_t>(d));
  }
  ctx.count("duration_lists");
  ctx.maxi("samples", dur.size());
  ctx.check(back == dur, "stts-expand", [&] { return strf("%zu durations expand to %zu", dur.size(), back.size()); });
  ctx.check(merged && nonempty, "stts-merged", [&] { return strf("%zu durations in %zu runs are not merged", dur.size(), e.size()); });

  // chunks
  const std::size_t chunks = r.chance(1, 20) ? 0 : r.chance(1, 60) ? 66000 : r.range(1, 40);
  std::vector<mp4::track::ChunkInfo> ci;
  std::uint64_t off = r.chance(1, 3) ? 0xffffffffULL - r.below(60) * 3 : r.below(5000);
  if (r.chance(1, 8)) off = r.edge(50);
  for (std::size_t i = 0; i < chunks; ++i) {
    const std::uint32_t s = r.chance(1, 2) && i ? ci.back().number_of_samples : static_cast<std::uint32_t>(r.chance(1, 40) ? r.u32() : r.range(1, 4));
    ci.push_back({.offset = off, .number_of_samples = s, .initialized = true});
    off += r.below(8);
  }
  // a list need not follow the order of the chunks in the file
  if (chunks > 1 && r.chance(1, 5)) {
    for (std::size_t i = chunks; i-- > 1;) std::swap(ci[i].offset, ci[r.below(i + 1)].offset);
    ctx.count("offsets_not_ascending");
  }
  std::vector<mp4::box::StscEntry> se;
  if (r.flag()) se.resize(2);
  mp4::track::make_stsc_entries(&se, ci);
  const mp4::box::Stsc sbox({.entries = se});
  const Bytes sw = lib_write_data(sbox);
  const std::uint64_t sc = be(sw, 4, 4);
  ctx.check(sw.size() == 8 + 12 * sc && sc == se.size(), "stsc-size", [&] { return strf("%zu entries, %zu bytes", se.size(), sw.size()); });
  std::vector<std::uint32_t> per;
  bool ok = sc == 0 || be(sw, 8, 4) == 1, min = true, desc = true;
  for (std::uint64_t i = 0; i < sc && ok; ++i) {
    const auto first = be(sw, 8 + 12 * i, 4), k = be(sw, 12 + 12 * i, 4);
    desc &= be(sw, 16 + 12 * i, 4) == 1;
    const std::uint64_t next = i + 1 < sc ? be(sw, 8 + 12 * (i + 1), 4) : chunks + 1;
    if (next <= first || next > chunks + 1) ok = false;
    if (i && k == be(sw, 12 * i, 4)) min = false;
    for (std::uint64_t c = first; ok && c < next; ++c) per.push_back(static_cast<std::uint32_t>(k));
  }
  std::vector<std::uint32_t> want;
  for (const auto& c : ci) want.push_back(c.number_of_samples);
  ctx.count("chunk_lists");
  ctx.check(ok && per == want, "stsc-expand", [&] { return strf("%zu chunks expand to %zu", want.size(), per.size()); });
  ctx.check(min, "stsc-merged", [&] { return strf("%zu chunks in %zu runs are not merged", chunks, se.size()); });
  ctx.check(desc, "stsc-description", [&] { return std::string("sample description index is not 1"); });

  std::unique_ptr<mp4::Box> ob(mp4::track::make_offset_box(ci));
  bool wide = false;
  for (const auto& c : ci) wide |= c.offset > 0xffffffffULL;
  const Type4 ot = wide ? t4("co64") : t4("stco");
  ctx.count(wide ? "offsets_64" : "offsets_32");
  ctx.check(ob->getType() == mp4::BoxType(ot), "offset-table", [&] {
    return strf("last of %zu chunks at %llu is recorded in ", chunks, static_cast<unsigned long long>(ci.empty() ? 0 : ci.back().offset)) +
           ob->getType().toString();
  });
  Enc oe;
  oe.full(0, 0).u32(chunks);
  for (const auto& c : ci) oe.u(c.offset, wide ? 64 : 32);
  const Bytes ow = lib_write_data(*ob);
  ctx.check(ow == oe.b, "offsets", [&] { return "chunk offsets: " + diff_bytes(ow, oe.b); });
  ctx.seen(strf("%zu/%zu/%d/", dur.size(), chunks, wide) + std::to_string(fnv(w.data(), w.size())) + std::to_string(fnv(sw.data(), sw.size())));
  if (n < 3) ctx.sample(strf("%zu durations in %llu runs, %zu chunks in %llu runs", dur.size(), static_cast<unsigned long long>(cnt), chunks,
                             static_cast<unsigned long long>(sc)));
}

Register r22("C22", c22), r24("C24", c24), r25("C25", c25);
}  // namespace
}  // namespace vh
