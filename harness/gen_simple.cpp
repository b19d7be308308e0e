// Boxes of fixed layout, strings and opaque payloads.
#include <fmt/format.h>
#include <fmt/ranges.h>

#include "gen.hpp"
#include "gen_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"

namespace vh {
namespace {
using namespace mp4::box;
using B = mp4::Box;

BoxCase k_btrt(Rng& r) {
  const auto a = r.u32(), b = r.u32(), c = r.u32();
  Enc e;
  e.u32(a).u32(b).u32(c);
  return mk("btrt", "btrt", e, strf("DecodingBufferSize=%u MaxBitrate=%u AvgBitrate=%u", a, b, c), [=]() -> B* {
    return new Btrt({.decoding_buffer_size = a, .max_bitrate = b, .avg_bitrate = c});
  });
}

BoxCase k_colr(Rng& r) {
  const unsigned k = static_cast<unsigned>(r.below(4));
  Enc e;
  if (k <= 1) {
    const auto p = r.u16(), t = r.u16(), m = r.u16();
    const bool f = r.flag();
    e.text("nclx").u16(p).u16(t).u16(m).u(f, 1).u(0, 7);
    return mk("colr", "colr.nclx", e,
              strf("ColourType=\"nclx\" ColourPrimaries=%u TransferCharacteristics=%u MatrixCoefficients=%u FullRangeFlag=%s",
                   p, t, m, f ? "true" : "false"),
              [=]() -> B* {
                return new Colr({.colour_type = t4("nclx"),
                                 .colour_primaries = p,
                                 .transfer_characteristics = t,
                                 .matrix_coefficients = m,
                                 .full_range_flag = f});
              });
  }
  const Bytes d = r.bytes(list_len(r));
  Type4 ct = t4(r.flag() ? "rICC" : "prof");
  if (k == 3) {
    do ct = r.flag() ? t4("nclc") : fourcc(r);
    while (ct == t4("nclx") || ct == t4("rICC") || ct == t4("prof"));
  }
  e.raw(ct).raw(d);
  const bool prof = k == 2;
  return mk("colr", prof ? "colr." + as_string(ct) : "colr.other", e,
            "ColourType=\"" + as_string(ct) + "\" " + (prof ? "Profile" : "Unknown") + "=[" + hexlist(d) + "]",
            [=]() -> B* {
              return new Colr({.colour_type = ct,
                               .colour_primaries = 1,
                               .transfer_characteristics = 2,
                               .matrix_coefficients = 3,
                               .full_range_flag = true,
                               .profile = prof ? d : Bytes{},
                               .unknown = prof ? Bytes{} : d});
            });
}

BoxCase k_data(Rng& r) {
  static const std::uint32_t types[] = {0, 1, 1, 1, 2, 3, 14, 21, 22, 23};
  static const char* names[] = {"BINARY", "UTF8", "UTF8", "UTF8", "UTF16", "MAC_STR", "JPEG", "INT", "FLOAT32", "FLOAT64"};
  const auto i = r.below(10);
  const std::uint32_t type = types[i], lang = r.u32();
  const Bytes d = r.bytes(list_len(r));
  Enc e;
  e.u32(type).u32(lang).raw(d);
  std::string s = strf("DataType=%s DataLang=%u ", names[i], lang);
  if (type == 1) {
    s += "Data=\"";
    for (auto c : d) s += c >= 0x20 && c < 0x7f ? static_cast<char>(c) : '.';
    s += "\"";
  } else {
    s += "Data=[" + hexlist(d) + "]";
  }
  return mk("data", strf("data.%s", names[i]), e, s, [=]() -> B* {
    return new Data({.data_type = static_cast<DataType>(type), .data_lang = lang, .data = d});
  });
}

BoxCase k_dref(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const std::uint32_t n = r.chance(1, 2) ? 1 : r.u32();
  Enc e;
  e.full(v, f).u32(n);
  auto c = mkf("dref", "dref", v, f, e, strf(" EntryCount=%u", n),
               [=]() -> B* { return new Dref({.version = v, .flags = f, .entry_count = n}); });
  c.container = c.vf_settable = true;
  return c;
}
BoxCase k_stsd(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const std::uint32_t n = r.chance(1, 2) ? 1 : r.u32();
  Enc e;
  e.full(v, f).u32(n);
  auto c = mkf("stsd", "stsd", v, f, e, strf(" EntryCount=%u", n),
               [=]() -> B* { return new Stsd({.version = v, .flags = f, .entry_count = n}); });
  c.container = c.vf_settable = true;
  return c;
}
BoxCase k_meta(Rng&) {
  Enc e;
  e.full(0, 0);
  auto c = mkf("meta", "meta", 0, 0, e, "", []() -> B* { return new Meta(); });
  c.container = true;
  return c;
}

BoxCase k_emsg(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const std::string uri = long_text(r, 30), val = long_text(r, 12);
  const auto ts = r.u32(), dur = r.u32(), id = r.u32();
  const std::uint64_t pt = r.edge(v ? 64 : 32);
  const Bytes d = r.bytes(list_len(r));
  Enc e;
  e.full(v, f);
  if (v == 0)
    e.str(uri).str(val).u32(ts).u32(pt).u32(dur).u32(id).raw(d);
  else
    e.u32(ts).u64(pt).u32(dur).u32(id).str(uri).str(val).raw(d);
  return mkf("emsg", strf("emsg.v%u", v), v, f, e,
             " SchemeIdUri=\"" + uri + "\" Value=\"" + val + strf("\" Timescale=%u ", ts) +
                 (v == 0 ? "PresentationTimeDelta=" : "PresentationTime=") + std::to_string(pt) +
                 strf(" EventDuration=%u Id=%u MessageData=\"", dur, id) + std::string(d.begin(), d.end()) + "\"",
             [=]() -> B* {
               return new Emsg({.version = v,
                                .flags = f,
                                .scheme_uri = uri,
                                .value = val,
                                .timescale = ts,
                                .presentation_time = pt,
                                .event_duration = dur,
                                .id = id,
                                .message_data = d});
             });
}

BoxCase k_fiel(Rng& r) {
  const auto a = r.u8(), b = r.u8();
  Enc e;
  e.u8(a).u8(b);
  return mk("fiel", "fiel", e, strf("FieldCount=%u FieldOrdering=%u", a, b),
            [=]() -> B* { return new Fiel({.field_count = a, .field_ordering = b}); });
}

BoxCase k_opaque(Rng& r) {
  const Bytes d = r.bytes(r.chance(1, 3) ? 0 : list_len(r) * 3);
  Enc e;
  e.raw(d);
  const std::string s = "Data=[" + hexlist(d) + "]";
  switch (r.below(3)) {
    case 0: return mk("free", "free", e, s, [=]() -> B* { return new Free({.data = d}); });
    case 1: return mk("skip", "skip", e, s, [=]() -> B* { return new Skip({.data = d}); });
    default: return mk("mdat", "mdat", e, s, [=]() -> B* { return new Mdat({.data = d}); });
  }
}

BoxCase k_ftyp(Rng& r) {
  const Type4 major = fourcc(r);
  const auto minor = r.u32();
  std::vector<Type4> br;
  for (std::size_t i = list_len(r); i-- > 0;) br.push_back(fourcc(r));
  Enc e;
  e.raw(major).u32(minor);
  std::string s = "MajorBrand=\"" + as_string(major) + strf("\" MinorVersion=%u CompatibleBrands=[", minor);
  for (std::size_t i = 0; i < br.size(); ++i) {
    e.raw(br[i]);
    s += std::string(i ? ", " : "") + "{CompatibleBrand=\"" + as_string(br[i]) + "\"}";
  }
  s += "]";
  if (r.flag())
    return mk("ftyp", "ftyp", e, s, [=]() -> B* {
      return new Ftyp({.major_brand = major, .minor_version = minor, .compatible_brands = br});
    });
  return mk("styp", "styp", e, s, [=]() -> B* {
    return new Styp({.major_brand = major, .minor_version = minor, .compatible_brands = br});
  });
}

BoxCase k_hdlr(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  std::string name = long_text(r, 24);
  const Type4 ht = r.chance(1, 2) ? t4(r.pick(std::vector<const char*>{"vide", "soun", "mdir", "hint"})) : fourcc(r);
  const Bytes pad = r.chance(1, 3) ? r.bytes(r.below(12)) : Bytes{};
  // with pre_defined != 0 a name whose first byte equals the remaining length means the QuickTime form
  std::uint32_t pre = r.chance(1, 4) ? r.u32() : 0;
  if (pre != 0) {
    const std::size_t rest = name.size() + 1 + pad.size();
    const unsigned first = name.empty() ? 0 : static_cast<unsigned char>(name[0]);
    if (first == rest - 1) pre = 0;
  }
  Enc e;
  e.full(v, f).u32(pre).raw(ht).u32(0).u32(0).u32(0).str(name).raw(pad);
  auto c = mkf("hdlr", pad.empty() ? "hdlr" : "hdlr.padded", v, f, e,
               strf(" PreDefined=%u HandlerType=\"", pre) + as_string(ht) + "\" Name=\"" + name + "\"", [=]() -> B* {
                 return new Hdlr({.version = v,
                                  .flags = f,
                                  .pre_defined = pre,
                                  .handler_type = ht,
                                  .name = name,
                                  .padding = pad});
               });
  c.vf_settable = true;
  return c;
}

BoxCase k_iods(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const auto tag = r.u8(), a = r.u8(), b = r.u8(), c1 = r.u8(), d = r.u8(), g = r.u8();
  const auto od = r.u16();
  Enc e;
  e.full(v, f).u8(tag).var4(7).u16(od).u8(a).u8(b).u8(c1).u8(d).u8(g);
  auto c = mkf("iods", "iods", v, f, e,
               fmt::format(" TypeTag={:#x} ODID={} ODProfileLevel={:#x} SceneProfileLevel={:#x} AudioProfileLevel={:#x} "
                           "VideoProfileLevel={:#x} GraphicsProfileLevel={:#x}",
                           tag, od, a, b, c1, d, g),
               [=]() -> B* {
                 return new Iods({.version = v,
                                  .flags = f,
                                  .type_tag = tag,
                                  .OD_ID = od,
                                  .OD_profile_level = a,
                                  .scene_profile_level = b,
                                  .audio_profile_level = c1,
                                  .video_profile_level = d,
                                  .graphics_profile_level = g});
               });
  c.vf_settable = true;
  return c;
}

BoxCase k_mdhd(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const unsigned w = v ? 64 : 32;
  const auto ct = time_value(r, w), mt = time_value(r, w), dur = r.edge(w);
  const auto ts = r.u32();
  const bool pad = r.chance(1, 4);
  const auto pre = r.u16();
  std::array<std::uint8_t, 3> l;
  for (auto& c : l) c = static_cast<std::uint8_t>(r.range('a', 'z'));
  Enc e;
  e.full(v, f).u(ct, w).u(mt, w).u32(ts).u(dur, w).u(pad, 1);
  for (auto c : l) e.u(c - 0x60U, 5);
  e.u16(pre);
  return mkf("mdhd", strf("mdhd.v%u", v), v, f, e,
             " CreationTime=\"" + time_text(ct) + "\" ModificationTime=\"" + time_text(mt) +
                 fmt::format("\" Timescale={} Duration={} Pad={} Language=\"{}\" PreDefined={}", ts, dur, pad,
                             std::string(l.begin(), l.end()), pre),
             [=]() -> B* {
               return new Mdhd({.version = v,
                                .flags = f,
                                .creation_time = ct,
                                .modification_time = mt,
                                .timescale = ts,
                                .duration = dur,
                                .pad = pad,
                                .language = l,
                                .pre_defined = pre});
             });
}

BoxCase k_mvhd(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const unsigned w = v ? 64 : 32;
  const auto ct = time_value(r, w), mt = time_value(r, w), dur = r.edge(w);
  const auto ts = r.u32(), next = r.u32();
  const auto rate = static_cast<std::int32_t>(r.sedge(32));
  const auto vol = static_cast<std::int16_t>(r.sedge(16));
  std::array<std::int32_t, 9> m;
  std::array<std::int32_t, 6> p;
  for (auto& x : m) x = static_cast<std::int32_t>(r.sedge(32));
  for (auto& x : p) x = static_cast<std::int32_t>(r.sedge(32));
  Enc e;
  e.full(v, f).u(ct, w).u(mt, w).u32(ts).u(dur, w).u32(static_cast<std::uint32_t>(rate));
  e.u16(static_cast<std::uint16_t>(vol)).u16(0).u32(0).u32(0);
  for (auto x : m) e.u32(static_cast<std::uint32_t>(x));
  for (auto x : p) e.u32(static_cast<std::uint32_t>(x));
  e.u32(next);
  return mkf("mvhd", strf("mvhd.v%u", v), v, f, e,
             " CreationTime=\"" + time_text(ct) + "\" ModificationTime=\"" + time_text(mt) +
                 fmt::format("\" Timescale={} Duration={} Rate={:.4f} Volume={} Matrix=[{:#x}] PreDefined=[{}] NextTrackID={}",
                             ts, dur, rate / 65536.0, vol, fmt::join(m, ", "), fmt::join(p, ", "), next),
             [=]() -> B* {
               return new Mvhd({.version = v,
                                .flags = f,
                                .creation_time = ct,
                                .modification_time = mt,
                                .timescale = ts,
                                .duration = dur,
                                .rate = rate,
                                .volume = vol,
                                .matrix = m,
                                .pre_defined = p,
                                .next_track_id = next});
             });
}

BoxCase k_tkhd(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const unsigned w = v ? 64 : 32;
  const auto ct = time_value(r, w), mt = time_value(r, w), dur = r.edge(w);
  const auto id = r.u32(), wd = r.u32(), ht = r.u32();
  const auto layer = static_cast<std::int16_t>(r.sedge(16)), alt = static_cast<std::int16_t>(r.sedge(16)),
             vol = static_cast<std::int16_t>(r.sedge(16));
  std::array<std::int32_t, 9> m;
  for (auto& x : m) x = static_cast<std::int32_t>(r.sedge(32));
  Enc e;
  e.full(v, f).u(ct, w).u(mt, w).u32(id).u32(0).u(dur, w).u32(0).u32(0);
  e.u16(static_cast<std::uint16_t>(layer)).u16(static_cast<std::uint16_t>(alt)).u16(static_cast<std::uint16_t>(vol)).u16(0);
  for (auto x : m) e.u32(static_cast<std::uint32_t>(x));
  e.u32(wd).u32(ht);
  return mkf("tkhd", strf("tkhd.v%u", v), v, f, e,
             " CreationTime=\"" + time_text(ct) + "\" ModificationTime=\"" + time_text(mt) +
                 fmt::format("\" TrackID={} Duration={} Layer={} AlternateGroup={} Volume={} Matrix=[{:#x}] Width={:.4f} Height={:.4f}",
                             id, dur, layer, alt, vol, fmt::join(m, ", "), wd / 65536.0, ht / 65536.0),
             [=]() -> B* {
               return new Tkhd({.version = v,
                                .flags = f,
                                .creation_time = ct,
                                .modification_time = mt,
                                .track_id = id,
                                .duration = dur,
                                .layer = layer,
                                .alternate_group = alt,
                                .volume = vol,
                                .matrix = m,
                                .width = wd,
                                .height = ht});
             });
}

BoxCase k_mehd(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const auto d = r.edge(v ? 64 : 32);
  Enc e;
  e.full(v, f).u(d, v ? 64 : 32);
  return mkf("mehd", strf("mehd.v%u", v), v, f, e, " FragmentDuration=" + std::to_string(d),
             [=]() -> B* { return new Mehd({.version = v, .flags = f, .fragment_duration = d}); });
}
BoxCase k_tfdt(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const auto d = r.edge(v ? 64 : 32);
  Enc e;
  e.full(v, f).u(d, v ? 64 : 32);
  return mkf("tfdt", strf("tfdt.v%u", v), v, f, e, " BaseMediaDecodeTime=" + std::to_string(d),
             [=]() -> B* { return new Tfdt({.version = v, .flags = f, .base_media_decode_time = d}); });
}
BoxCase k_mfhd(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const auto n = r.u32();
  Enc e;
  e.full(v, f).u32(n);
  auto c = mkf("mfhd", "mfhd", v, f, e, strf(" SequenceNumber=%u", n),
               [=]() -> B* { return new Mfhd({.version = v, .flags = f, .sequence_number = n}); });
  c.vf_settable = true;
  return c;
}
BoxCase k_mfro(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const auto n = r.u32();
  Enc e;
  e.full(v, f).u32(n);
  auto c = mkf("mfro", "mfro", v, f, e, strf(" Size=%u", n),
               [=]() -> B* { return new Mfro({.version = v, .flags = f, .size = n}); });
  c.vf_settable = true;
  return c;
}
BoxCase k_pasp(Rng& r) {
  const auto a = r.u32(), b = r.u32();
  Enc e;
  e.u32(a).u32(b);
  return mk("pasp", "pasp", e, strf("HSpacing=%u VSpacing=%u", a, b),
            [=]() -> B* { return new PixelAspectRatio({.h_spacing = a, .v_spacing = b}); });
}

std::string hex2(const Bytes& b) {
  std::string s;
  for (auto c : b) s += strf("%02x", c);
  return s;
}
BoxCase k_pssh(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  std::array<std::uint8_t, 16> id;
  for (auto& c : id) c = r.u8();
  std::vector<std::array<std::uint8_t, 16>> kids;
  if (v)
    for (std::size_t i = list_len(r); i-- > 0;) {
      std::array<std::uint8_t, 16> k;
      for (auto& c : k) c = static_cast<std::uint8_t>(r.next());
      kids.push_back(k);
    }
  const Bytes d = r.bytes(list_len(r));
  Enc e;
  e.full(v, f).raw(Bytes(id.begin(), id.end()));
  std::string s = " SystemID=\"" + hex2(Bytes(id.begin(), id.end())) + "\"";
  if (v) {
    e.u32(kids.size());
    s += " KIDCount=" + std::to_string(kids.size()) + " KIDs=[";
    for (std::size_t i = 0; i < kids.size(); ++i) {
      e.raw(Bytes(kids[i].begin(), kids[i].end()));
      s += std::string(i ? " " : "") + "\"" + hex2(Bytes(kids[i].begin(), kids[i].end())) + "\"";
    }
    s += "]";
  }
  const std::size_t data_off = e.b.size();
  e.u32(d.size()).raw(d);
  s += " DataSize=" + std::to_string(d.size()) + " Data=[" + hexlist(d) + "]";
  auto c = mkf("pssh", strf("pssh.v%u", v), v, f, e, s, [=]() -> B* {
    std::vector<PsshKID> ks;
    for (const auto& k : kids) ks.push_back(PsshKID({.kid = k}));
    return new Pssh({.version = v, .flags = f, .system_id = id, .kids = ks, .data = d});
  });
  c.counts.push_back({data_off, 4, 1});
  if (v) c.counts.push_back({20, 4, 16});
  return c;
}

BoxCase k_smhd(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const auto b = static_cast<std::int16_t>(r.sedge(16));
  Enc e;
  e.full(v, f).u16(static_cast<std::uint16_t>(b)).u16(0);
  auto c = mkf("smhd", "smhd", v, f, e, fmt::format(" Balance={:.2f}", b / 256.0),
               [=]() -> B* { return new Smhd({.version = v, .flags = f, .balance = b}); });
  c.vf_settable = true;
  return c;
}
BoxCase k_vmhd(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const auto g = r.u16();
  std::array<std::uint16_t, 3> o{r.u16(), r.u16(), r.u16()};
  Enc e;
  e.full(v, f).u16(g).u16(o[0]).u16(o[1]).u16(o[2]);
  auto c = mkf("vmhd", "vmhd", v, f, e, strf(" Graphicsmode=%u Opcolor=[%u, %u, %u]", g, o[0], o[1], o[2]),
               [=]() -> B* { return new Vmhd({.version = v, .flags = f, .graphicsmode = g, .opcolor = o}); });
  c.vf_settable = true;
  return c;
}
BoxCase k_trex(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const auto a = r.u32(), b = r.u32(), c1 = r.u32(), d = r.u32(), g = r.u32();
  Enc e;
  e.full(v, f).u32(a).u32(b).u32(c1).u32(d).u32(g);
  auto c = mkf("trex", "trex", v, f, e,
               fmt::format(" TrackID={} DefaultSampleDescriptionIndex={} DefaultSampleDuration={} DefaultSampleSize={} "
                           "DefaultSampleFlags={:#x}",
                           a, b, c1, d, g),
               [=]() -> B* {
                 return new Trex({.version = v,
                                  .flags = f,
                                  .track_id = a,
                                  .default_sample_description_index = b,
                                  .default_sample_duration = c1,
                                  .default_sample_size = d,
                                  .default_sample_flags = g});
               });
  c.vf_settable = true;
  return c;
}
BoxCase k_tfhd(Rng& r) {
  const auto v = anyver(r);
  std::uint32_t f = 0;
  for (std::uint32_t bit : {0x1U, 0x2U, 0x8U, 0x10U, 0x20U, 0x10000U, 0x20000U})
    if (r.flag()) f |= bit;
  if (r.chance(1, 8)) f = static_cast<std::uint32_t>(r.edge(24));
  const auto id = r.u32(), b = r.u32(), c1 = r.u32(), d = r.u32(), g = r.u32();
  const auto off = r.u64();
  Enc e;
  e.full(v, f).u32(id);
  std::string s = strf(" TrackID=%u", id);
  if (f & 1) e.u64(off), s += " BaseDataOffset=" + std::to_string(off);
  if (f & 2) e.u32(b), s += strf(" SampleDescriptionIndex=%u", b);
  if (f & 8) e.u32(c1), s += strf(" DefaultSampleDuration=%u", c1);
  if (f & 0x10) e.u32(d), s += strf(" DefaultSampleSize=%u", d);
  if (f & 0x20) e.u32(g), s += fmt::format(" DefaultSampleFlags={:#x}", g);
  return mkf("tfhd", strf("tfhd.%02x", f & 0x3b), v, f, e, s, [=]() -> B* {
    return new Tfhd({.version = v,
                     .flags = f,
                     .track_id = id,
                     .base_data_offset = off,
                     .sample_description_index = b,
                     .default_sample_duration = c1,
                     .default_sample_size = d,
                     .default_sample_flags = g});
  });
}
BoxCase k_url(Rng& r) {
  const auto v = anyver(r);
  const std::uint32_t f = r.flag() ? 1 : anyflags(r);
  const std::string loc = long_text(r, 30);
  Enc e;
  e.full(v, f);
  std::string s;
  if (!(f & 1)) e.str(loc), s = " Location=\"" + loc + "\"";
  return mkf("url ", f & 1 ? "url.self" : "url.external", v, f, e, s,
             [=]() -> B* { return new Url({.version = v, .flags = f, .location = loc}); });
}
BoxCase k_urn(Rng& r) {
  const auto v = anyver(r);
  const std::uint32_t f = r.chance(1, 3) ? 1 : anyflags(r);
  const std::string name = long_text(r, 20), loc = long_text(r, 30);
  Enc e;
  e.full(v, f);
  std::string s;
  if (!(f & 1)) e.str(name).str(loc), s = " Name=\"" + name + "\" Location=\"" + loc + "\"";
  return mkf("urn ", f & 1 ? "urn.self" : "urn.external", v, f, e, s,
             [=]() -> B* { return new Urn({.version = v, .flags = f, .name = name, .location = loc}); });
}

}  // namespace

void add_kinds_simple(std::vector<Kind>& k) {
  k.insert(k.end(), {{"btrt", k_btrt}, {"colr", k_colr}, {"data", k_data}, {"dref", k_dref}, {"stsd", k_stsd},
                     {"meta", k_meta}, {"emsg", k_emsg}, {"fiel", k_fiel}, {"opaque", k_opaque}, {"ftyp", k_ftyp},
                     {"hdlr", k_hdlr}, {"iods", k_iods}, {"mdhd", k_mdhd}, {"mvhd", k_mvhd}, {"tkhd", k_tkhd},
                     {"mehd", k_mehd}, {"tfdt", k_tfdt}, {"mfhd", k_mfhd}, {"mfro", k_mfro}, {"pasp", k_pasp},
                     {"pssh", k_pssh}, {"smhd", k_smhd}, {"vmhd", k_vmhd}, {"trex", k_trex}, {"tfhd", k_tfhd},
                     {"url", k_url}, {"urn", k_urn}});
}

}  // namespace vh
