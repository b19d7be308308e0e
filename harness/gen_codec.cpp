// Codec configuration boxes and sample entries.
#include <fmt/format.h>
#include <fmt/ranges.h>

#include "gen.hpp"
#include "gen_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"

namespace vh {
namespace {
using namespace mp4::box;
using B = mp4::Box;

std::string dec(const Bytes& b) {
  List l;
  for (auto c : b) l.add(std::to_string(c));
  return l.s;
}

BoxCase k_av1c(Rng& r) {
  const bool m = !r.chance(1, 6);
  const auto ver = static_cast<std::uint8_t>(r.chance(1, 2) ? 1 : r.edge(7)), prof = static_cast<std::uint8_t>(r.below(8)),
             lev = static_cast<std::uint8_t>(r.below(32)), tier = static_cast<std::uint8_t>(r.below(2)),
             csx = static_cast<std::uint8_t>(r.below(2)), csy = static_cast<std::uint8_t>(r.below(2)),
             csp = static_cast<std::uint8_t>(r.below(4)), ipd = static_cast<std::uint8_t>(r.below(16));
  const bool hb = r.flag(), tb = r.flag(), mono = r.flag(), pres = r.flag();
  const Bytes obu = r.bytes(list_len(r));
  Enc e;
  e.u(m, 1).u(ver, 7).u(prof, 3).u(lev, 5).u(tier, 1).u(hb, 1).u(tb, 1).u(mono, 1).u(csx, 1).u(csy, 1).u(csp, 2);
  e.u(0, 3).u(pres, 1).u(ipd, 4).raw(obu);
  return mk("av1C", pres ? "av1C.delay" : "av1C", e,
            fmt::format("Marker={} Version={} SeqProfile={} SeqLevelIdx0={} SeqTier0={} HighBitdepth={} TwelveBit={} "
                        "Monochrome={} ChromaSubsamplingX={} ChromaSubsamplingY={} ChromaSamplePosition={} "
                        "InitialPresentationDelayPresent={}",
                        m ? 1 : 0, ver, prof, lev, tier, hb, tb, mono, csx, csy, csp, pres) +
                (pres ? fmt::format(" InitialPresentationDelayMinusOne={}", ipd) : "") + " ConfigOBUs=[" + hexlist(obu) +
                "]",
            [=]() -> B* {
              return new AV1CodecConfiguration({.marker = static_cast<std::uint8_t>(m),
                                                .version = ver,
                                                .seq_profile = prof,
                                                .seq_level_idx_0 = lev,
                                                .seq_tier_0 = tier,
                                                .high_bitdepth = hb,
                                                .twelve_bit = tb,
                                                .monochrome = mono,
                                                .chroma_subsampling_x = csx,
                                                .chroma_subsampling_y = csy,
                                                .chroma_sample_position = csp,
                                                .initial_presentation_delay_present = pres,
                                                .initial_presentation_delay_minus_one = ipd,
                                                .config_OBUs = obu});
            });
}

struct Sets {
  std::vector<AVCParameterSet> v;
  List l;
  Enc e;
  std::size_t n = 0;
};
Sets sets(Rng& r, std::size_t max) {
  Sets s;
  s.n = r.chance(1, 20) ? max : r.below(4);
  for (std::size_t i = 0; i < s.n; ++i) {
    const Bytes b = r.bytes(r.chance(1, 60) ? 65535 : r.chance(1, 20) ? r.range(250, 300) : r.below(20));
    s.v.push_back(AVCParameterSet({.nal_unit = b}));
    s.e.u16(b.size()).raw(b);
    s.l.add(fmt::format("{{Length={} NALUnit=[{}]}}", b.size(), hexlist(b)));
    if (b.size() == 65535) s.n = i + 1;
  }
  return s;
}
BoxCase k_avcc(Rng& r) {
  static const std::vector<std::uint8_t> high{0x56, 0x64, 0x6e, 0x76, 0x7a, 0x80, 0x8a, 0x90, 0xf4};
  const auto ver = static_cast<std::uint8_t>(r.chance(1, 2) ? 1 : r.u8());
  std::uint8_t prof = r.flag() ? r.pick(high) : r.flag() ? r.pick(std::vector<std::uint8_t>{0x42, 0x4d, 0x58, 0x2c, 0x53}) : r.u8();
  bool is_high = false;
  for (auto h : high) is_high |= h == prof;
  const auto compat = r.u8(), level = r.u8();
  const auto lsm = static_cast<std::uint8_t>(r.below(4)), cf = static_cast<std::uint8_t>(r.below(4)),
             bl = static_cast<std::uint8_t>(r.below(8)), bc = static_cast<std::uint8_t>(r.below(8));
  const bool en = is_high && r.chance(2, 3);
  auto sps = sets(r, 31), pps = sets(r, 255), ext = sets(r, 255);
  Enc e;
  e.u8(ver).u8(prof).u8(compat).u8(level).u(0x3f, 6).u(lsm, 2).u(7, 3).u(sps.n, 5).raw(sps.e.b).u8(pps.n).raw(pps.e.b);
  std::string s = fmt::format(
      "ConfigurationVersion={:#x} Profile={:#x} ProfileCompatibility={:#x} Level={:#x} LengthSizeMinusOne={:#x} "
      "NumOfSequenceParameterSets={:#x} SequenceParameterSets=[{}] NumOfPictureParameterSets={:#x} "
      "PictureParameterSets=[{}]",
      ver, prof, compat, level, lsm, sps.n, sps.l.s, pps.n, pps.l.s);
  if (en) {
    e.u(0x3f, 6).u(cf, 2).u(0x1f, 5).u(bl, 3).u(0x1f, 5).u(bc, 3).u8(ext.n).raw(ext.e.b);
    s += fmt::format(
        " ChromaFormat={:#x} BitDepthLumaMinus8={:#x} BitDepthChromaMinus8={:#x} NumOfSequenceParameterSetExt={:#x} "
        "SequenceParameterSetsExt=[{}]",
        cf, bl, bc, ext.n, ext.l.s);
  }
  const auto v1 = sps.v, v2 = pps.v, v3 = ext.v;
  return mk("avcC", en ? "avcC.high" : is_high ? "avcC.high-without-fields" : "avcC", e, s, [=]() -> B* {
    return new AVCDecoderConfiguration({.configuration_version = ver,
                                        .profile = prof,
                                        .profile_compatibility = compat,
                                        .level = level,
                                        .length_size_minus_one = lsm,
                                        .sequence_parameter_sets = v1,
                                        .picture_parameter_sets = v2,
                                        .high_profile_fields_enabled = en,
                                        .chroma_format = cf,
                                        .bit_depth_luma_minus8 = bl,
                                        .bit_depth_chroma_minus8 = bc,
                                        .sequence_parameter_sets_ext = v3});
  });
}

BoxCase k_dops(Rng& r) {
  const auto ver = static_cast<std::uint8_t>(r.chance(2, 3) ? 0 : r.u8()), ch = static_cast<std::uint8_t>(r.chance(2, 3) ? r.below(9) : r.u8()),
             fam = static_cast<std::uint8_t>(r.flag() ? 0 : r.u8()), sc = r.u8(), cc = r.u8();
  const auto skip = r.u16();
  const auto rate = r.u32();
  const auto gain = static_cast<std::int16_t>(r.sedge(16));
  const Bytes map = r.bytes(ch);
  Enc e;
  e.u8(ver).u8(ch).u16(skip).u32(rate).u16(static_cast<std::uint16_t>(gain)).u8(fam);
  std::string s = fmt::format(
      "Version={} OutputChannelCount={} PreSkip={} InputSampleRate={} OutputGain={} ChannelMappingFamily={}", ver, ch,
      skip, rate, gain, fam);
  if (fam != 0) {
    e.u8(sc).u8(cc).raw(map);
    s += fmt::format(" StreamCount={} CoupledCount={} ChannelMapping=[{}]", sc, cc, dec(map));
  }
  return mk("dOps", fam ? "dOps.mapped" : "dOps", e, s, [=]() -> B* {
    if (fam == 0)
      return new DOps({.version = ver,
                       .output_channel_count = ch,
                       .pre_skip = skip,
                       .input_sample_rate = rate,
                       .output_gain = gain,
                       .channel_mapping_family = fam});
    return new DOps({.version = ver,
                     .output_channel_count = ch,
                     .pre_skip = skip,
                     .input_sample_rate = rate,
                     .output_gain = gain,
                     .channel_mapping_family = fam,
                     .channel_mapping_table = DOpsChannelMappingTable(
                         {.stream_count = sc, .coupled_count = cc, .channel_mapping = map})});
  });
}

BoxCase k_esds(Rng& r) {
  // the usual nesting ES { DecoderConfig { [DecSpecificInfo] } [SLConfig] }, or a flat list of descriptors
  const auto esid = r.u16(), dep = r.u16(), ocr = r.u16();
  const bool fd = r.chance(1, 3), fu = r.chance(1, 3), fo = r.chance(1, 3);
  const auto prio = static_cast<std::int8_t>(r.sedge(5));
  std::string url = text(r, 30).substr(0, 255);
  if (r.chance(1, 20)) url = std::string(255, 'u');
  const auto oti = r.u8();
  const auto st = static_cast<std::int8_t>(r.sedge(6));
  const bool up = r.flag(), res = r.flag();
  const auto buf = static_cast<std::uint32_t>(r.edge(24)), mx = r.u32(), av = r.u32();
  const bool with_dsi = r.chance(3, 4), with_sl = r.chance(3, 4), explicit_size = r.chance(1, 4);
  const Bytes dsi = r.bytes(big_lists() ? r.range(65500, 65600) : r.chance(1, 10) ? r.range(120, 300) : r.chance(1, 15) ? r.range(16380, 16390) : r.below(12));
  const Bytes sl = r.bytes(r.chance(1, 3) ? 1 : r.below(12));
  const std::uint32_t dcd_sub = with_dsi ? static_cast<std::uint32_t>(5 + dsi.size()) : 0;
  const std::uint32_t es_own = 3U + (fd ? 2U : 0U) + (fu ? 1U + static_cast<std::uint32_t>(url.size()) : 0U) + (fo ? 2U : 0U);
  const std::uint32_t es_sub = 5U + 13U + dcd_sub + (with_sl ? 5U + static_cast<std::uint32_t>(sl.size()) : 0U);
  Enc e;
  e.full(0, 0);
  e.u8(3).var4(es_own + es_sub).u16(esid).u(fd, 1).u(fu, 1).u(fo, 1).u(static_cast<std::uint64_t>(prio), 5);
  std::string s = fmt::format(
      "{{Tag=ESDescr DataSize={} DataSizeWithSubDescriptors={} ESID={} StreamDependenceFlag={} UrlFlag={} "
      "OcrStreamFlag={} StreamPriority={}",
      es_own, es_own + es_sub, esid, fd, fu, fo, prio);
  if (fd) e.u16(dep), s += fmt::format(" DependsOnESID={}", dep);
  if (fu) e.u8(url.size()).text(url), s += fmt::format(" URLLength={:#x} URLString=\"", url.size()) + url + "\"";
  if (fo) e.u16(ocr), s += fmt::format(" OCRESID={}", ocr);
  s += "}";
  e.u8(4).var4(13 + dcd_sub).u8(oti).u(static_cast<std::uint64_t>(st), 6).u(up, 1).u(res, 1).u24(buf).u32(mx).u32(av);
  s += fmt::format(
      ", {{Tag=DecoderConfigDescr DataSize=13 DataSizeWithSubDescriptors={} ObjectTypeIndication={:#x} StreamType={} "
      "UpStream={} Reserved={} BufferSizeDB={} MaxBitrate={} AvgBitrate={}}}",
      13 + dcd_sub, oti, st, up, res, buf, mx, av);
  if (with_dsi) {
    e.u8(5).var4(static_cast<std::uint32_t>(dsi.size())).raw(dsi);
    s += fmt::format(", {{Tag=DecSpecificInfo DataSize={} Data=[{}]}}", dsi.size(), hexlist(dsi));
  }
  if (with_sl) {
    e.u8(6).var4(static_cast<std::uint32_t>(sl.size())).raw(sl);
    s += fmt::format(", {{Tag=SLConfigDescr DataSize={} Data=[{}]}}", sl.size(), hexlist(sl));
  }
  return mkf("esds", strf("esds.%d%d%d%d%d%s", fd, fu, fo, with_dsi, with_sl, explicit_size ? ".explicit" : ""), 0, 0, e,
             " Descriptors=[" + s + "]", [=]() -> B* {
               auto es = std::make_shared<ESDescriptor>(
                   ESDescriptorParameters{.sub_descriptors_size = explicit_size ? es_sub : 0,
                                          .ESID = esid,
                                          .stream_dependence_flag = fd,
                                          .url_flag = fu,
                                          .ocr_stream_flag = fo,
                                          .stream_priority = prio,
                                          .depends_on_esid = dep,
                                          .url_string = Bytes(url.begin(), url.end()),
                                          .OCRESID = ocr});
               auto dc = std::make_shared<DecoderConfigDescriptor>(
                   DecoderConfigDescriptorParameters{.sub_descriptors_size = explicit_size ? dcd_sub : 0,
                                                     .object_type_indication = oti,
                                                     .stream_type = st,
                                                     .upstream = up,
                                                     .reserved = res,
                                                     .buffer_size_db = buf,
                                                     .max_bitrate = mx,
                                                     .avg_bitrate = av});
               std::vector<std::shared_ptr<Descriptor>> all{es, dc};
               if (!explicit_size) es->addSubDescriptor(dc);
               if (with_dsi) {
                 auto d = std::make_shared<DecSpecificInfo>(DecSpecificInfoParameters{.data = dsi});
                 if (!explicit_size) dc->addSubDescriptor(d);
                 all.push_back(d);
               }
               if (with_sl) {
                 auto d = std::make_shared<SLConfigDescr>(SLConfigDescrParameters{.data = sl});
                 if (!explicit_size) es->addSubDescriptor(d);
                 all.push_back(d);
               }
               return new Esds({.descriptors = all});
             });
}

BoxCase k_vpcc(Rng& r) {
  const std::uint8_t v = r.chance(2, 3) ? 1 : 0;
  const auto f = anyflags(r);
  const auto prof = r.u8(), lev = r.u8(), cp = r.u8(), tc = r.u8(), mc = r.u8();
  const auto bd = static_cast<std::uint8_t>(r.below(16)), cs = static_cast<std::uint8_t>(r.below(8)),
             fr = static_cast<std::uint8_t>(r.below(2));
  const Bytes d = v ? r.bytes(r.chance(1, 40) ? 65535 : r.chance(1, 2) ? 0 : r.below(300)) : Bytes{};
  Enc e;
  e.full(v, f).u8(prof).u8(lev).u(bd, 4).u(cs, 3).u(fr, 1).u8(cp).u8(tc).u8(mc);
  if (v) e.u16(d.size()).raw(d);
  return mkf("vpcC", strf("vpcC.v%u", v), v, f, e,
             fmt::format(" Profile={} Level={} BitDepth={} ChromaSubSampling={} VideoFullRangeFlag={} "
                         "ColourPrimaries={} TransferCharacteristics={} MatrixCoefficients={} CodecInitializationData=[",
                         prof, lev, bd, cs, fr, cp, tc, mc) +
                 hexlist(d) + "]",
             [=]() -> B* {
               return new VPCodecConfiguration({.version = v,
                                                .flags = f,
                                                .profile = prof,
                                                .level = lev,
                                                .bit_depth = bd,
                                                .chroma_sub_sampling = cs,
                                                .video_full_range_flag = fr,
                                                .colour_primaries = cp,
                                                .transfer_characteristics = tc,
                                                .matrix_coefficients = mc,
                                                .codec_initialization_data = d});
             });
}

BoxCase k_visual(Rng& r) {
  const char* type = r.pick(std::vector<const char*>{"avc1", "encv", "vp08", "vp09", "vp10", "av01"});
  const auto dri = r.u16(), pre = r.u16(), w = r.u16(), h = r.u16(), fc = r.u16(), depth = r.u16();
  const std::array<std::uint32_t, 3> pre2{r.u32(), r.u32(), r.u32()};
  const auto hr = r.u32(), vr = r.u32();
  const auto pre3 = static_cast<std::int16_t>(r.sedge(16));
  std::array<std::uint8_t, 32> name{};
  const std::size_t len = r.chance(1, 8) ? r.u8() : r.below(32);
  name[0] = static_cast<std::uint8_t>(len);
  for (std::size_t i = 1; i < 32; ++i)
    name[i] = i <= len ? static_cast<std::uint8_t>(r.range(0x20, 0x7e)) : static_cast<std::uint8_t>(r.chance(1, 4) ? r.next() : 0);
  Enc e;
  e.u32(0).u16(0).u16(dri).u16(pre).u16(0).u32(pre2[0]).u32(pre2[1]).u32(pre2[2]).u16(w).u16(h).u32(hr).u32(vr).u32(0);
  e.u16(fc).raw(Bytes(name.begin(), name.end())).u16(depth).u16(static_cast<std::uint16_t>(pre3));
  auto c = mk(type, std::string("visual.") + type, e,
              fmt::format("DataReferenceIndex={} PreDefined={} PreDefined2=[{}, {}, {}] Width={} Height={} "
                          "Horizresolution={} Vertresolution={} FrameCount={} Compressorname=\"",
                          dri, pre, pre2[0], pre2[1], pre2[2], w, h, hr, vr, fc) +
                  std::string(name.begin() + 1, name.begin() + 1 + static_cast<long>(std::min<std::size_t>(len, 31))) +
                  fmt::format("\" Depth={} PreDefined3={}", depth, pre3),
              nullptr);
  const Type4 t = t4(type);
  c.make = [=]() -> B* {
    return new VisualSampleEntry({.type = mp4::BoxType(t),
                                  .data_reference_index = dri,
                                  .pre_defined = pre,
                                  .pre_defined2 = pre2,
                                  .width = w,
                                  .height = h,
                                  .horizresolution = hr,
                                  .vertresolution = vr,
                                  .frame_count = fc,
                                  .compressorname = name,
                                  .depth = depth,
                                  .pre_defined3 = pre3});
  };
  c.container = true;
  return c;
}

BoxCase k_audio(Rng& r) {
  const char* type = r.pick(std::vector<const char*>{"mp4a", "enca", "Opus"});
  const bool opus = type[0] == 'O';
  const std::uint16_t ver = static_cast<std::uint16_t>(r.chance(1, 2) ? 0 : r.range(1, 3));
  const auto dri = r.u16(), ch = r.u16(), ss = r.u16(), pre = r.u16();
  const auto rate = r.u32();
  bool qt = false;
  Bytes d;
  std::uint16_t entry_version = ver;
  if (opus) {
    entry_version = static_cast<std::uint16_t>(r.flag() ? 0 : r.range(3, 65535));
  } else if (ver == 1 || ver == 2) {
    qt = true;
    d = r.bytes(ver == 1 ? 16 : 36);
  } else if (ver == 3) {
    entry_version = static_cast<std::uint16_t>(r.range(3, 65535));
    qt = r.flag();
    if (qt) d = r.bytes(r.range(1, 60));
  }
  Enc e;
  e.u32(0).u16(0).u16(dri).u16(entry_version).u16(0).u16(0).u16(0).u16(ch).u16(ss).u16(pre).u16(0).u32(rate).raw(d);
  auto c = mk(type, strf("audio.%s.%u%s", type, ver, qt ? ".qt" : ""), e,
              fmt::format("DataReferenceIndex={} EntryVersion={} ChannelCount={} SampleSize={} PreDefined={} SampleRate={}",
                          dri, entry_version, ch, ss, pre, rate) +
                  (qt ? " QuickTimeData=[" + hexlist(d) + "]" : ""),
              nullptr);
  const Type4 t = t4(type);
  c.make = [=]() -> B* {
    return new AudioSampleEntry({.type = mp4::BoxType(t),
                                 .data_reference_index = dri,
                                 .entry_version = entry_version,
                                 .channel_count = ch,
                                 .sample_size = ss,
                                 .pre_defined = pre,
                                 .sample_rate = rate,
                                 .is_quick_time_compatible = qt,
                                 .quick_time_data = d});
  };
  // from version 3 on everything up to the end of the entry is QuickTime data
  c.container = opus || entry_version < 3;
  return c;
}

}  // namespace

void add_kinds_codec(std::vector<Kind>& k) {
  k.insert(k.end(), {{"av1C", k_av1c}, {"avcC", k_avcc}, {"dOps", k_dops}, {"esds", k_esds}, {"vpcC", k_vpcc},
                     {"visual", k_visual}, {"audio", k_audio}});
}

}  // namespace vh
