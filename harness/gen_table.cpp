// Boxes that hold tables.
#include <fmt/format.h>

#include "gen.hpp"
#include "gen_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"

namespace vh {
namespace {
using namespace mp4::box;
using B = mp4::Box;

BoxCase k_co64(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  std::vector<std::uint64_t> o(list_len(r));
  for (auto& x : o) x = r.u64();
  Enc e;
  e.full(v, f).u32(o.size());
  List l;
  for (auto x : o) e.u64(x), l.add(fmt::format("{:#x}", x));
  auto c = mkf("co64", "co64", v, f, e, fmt::format(" EntryCount={} ChunkOffsets=[{}]", o.size(), l.s),
               [=]() -> B* { return new Co64({.version = v, .flags = f, .chunk_offsets = o}); });
  c.vf_settable = true;
  return counted(c, 4, 4, 8);
}
BoxCase k_stco(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  std::vector<std::uint32_t> o(list_len(r));
  for (auto& x : o) x = r.u32();
  Enc e;
  e.full(v, f).u32(o.size());
  List l;
  for (auto x : o) e.u32(x), l.add(fmt::format("{:#x}", x));
  auto c = mkf("stco", "stco", v, f, e, fmt::format(" EntryCount={} ChunkOffsets=[{}]", o.size(), l.s),
               [=]() -> B* { return new Stco({.version = v, .flags = f, .chunk_offsets = o}); });
  c.vf_settable = true;
  return counted(c, 4, 4, 4);
}
BoxCase k_ctts(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  std::vector<CttsEntry> es;
  const std::size_t n = list_len(r);
  Enc e;
  e.full(v, f).u32(n);
  List l;
  for (std::size_t i = 0; i < n; ++i) {
    const auto c = r.u32();
    // unsigned in version 0
    const auto o = v ? r.sedge(32) : static_cast<std::int64_t>(r.edge(32));
    es.emplace_back(c, o);
    e.u32(c).u32(static_cast<std::uint32_t>(o));
    l.add(fmt::format("{{SampleCount={} SampleOffset={}}}", c, o));
  }
  auto c = mkf("ctts", strf("ctts.v%u", v), v, f, e, fmt::format(" EntryCount={} Entries=[{}]", n, l.s),
               [=]() -> B* { return new Ctts({.version = v, .flags = f, .entries = es}); });
  return counted(c, 4, 4, 8);
}
BoxCase k_elst(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  std::vector<ElstEntry> es;
  const std::size_t n = list_len(r);
  const unsigned w = v ? 64 : 32;
  Enc e;
  e.full(v, f).u32(n);
  List l;
  for (std::size_t i = 0; i < n; ++i) {
    const auto d = r.edge(w);
    const auto m = r.chance(1, 5) ? -1 : r.sedge(w);
    const auto rate = static_cast<std::int32_t>(r.chance(1, 2) ? 65536 : r.sedge(32));
    es.push_back(ElstEntry({.track_duration = d, .media_time = m, .media_rate = rate}));
    e.u(d, w).u(static_cast<std::uint64_t>(m), w).u32(static_cast<std::uint32_t>(rate));
    l.add(fmt::format("{{TrackDuration={} MediaTime={} MediaRate={:.4f}}}", d, m, rate / 65536.0));
  }
  auto c = mkf("elst", strf("elst.v%u", v), v, f, e, fmt::format(" EntryCount={} Entries=[{}]", n, l.s),
               [=]() -> B* { return new Elst({.version = v, .flags = f, .entries = es}); });
  return counted(c, 4, 4, v ? 20 : 12);
}
Type4 group(Rng& r) {
  return r.chance(1, 6) ? fourcc(r) : t4(r.pick(std::vector<const char*>{"roll", "prol", "alst", "rap ", "tele"}));
}
BoxCase k_sbgp(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const auto g = group(r);
  const std::uint32_t p = r.u32();
  const std::size_t n = list_len(r);
  Enc e;
  e.full(v, f).raw(g);
  if (v) e.u32(p);
  e.u32(n);
  List l;
  std::vector<SbgpEntry> es;
  for (std::size_t i = 0; i < n; ++i) {
    const auto a = r.u32(), b = r.u32();
    es.push_back(SbgpEntry({.sample_count = a, .group_description_index = b}));
    e.u32(a).u32(b);
    l.add(fmt::format("{{SampleCount={} GroupDescriptionIndex={}}}", a, b));
  }
  auto c = mkf("sbgp", strf("sbgp.v%u", v), v, f, e,
               " GroupingType=\"" + as_string(g) + "\"" + (v ? fmt::format(" GroupingTypeParameter={}", p) : "") +
                   fmt::format(" EntryCount={} Entries=[{}]", n, l.s),
               [=]() -> B* {
                 return new Sbgp({.version = v,
                                  .flags = f,
                                  .grouping_type = g,
                                  .grouping_type_parameter = p,
                                  .entries = es});
               });
  return counted(c, v ? 12 : 8, 4, 8);
}
BoxCase k_sdtp(Rng& r) {
  const std::size_t n = list_len(r);
  Enc e;
  e.full(0, 0);
  List l;
  std::vector<SdtpSample> es;
  for (std::size_t i = 0; i < n; ++i) {
    std::uint8_t q[4];
    for (auto& x : q) x = static_cast<std::uint8_t>(r.below(4)), e.u(x, 2);
    es.push_back(SdtpSample({.is_leading = q[0],
                             .sample_depends_on = q[1],
                             .sample_is_depended_on = q[2],
                             .sample_has_redundancy = q[3]}));
    l.add(fmt::format("{{IsLeading={:#x} SampleDependsOn={:#x} SampleIsDependedOn={:#x} SampleHasRedundancy={:#x}}}",
                      q[0], q[1], q[2], q[3]));
  }
  return mkf("sdtp", "sdtp", 0, 0, e, " Samples=[" + l.s + "]",
             [=]() -> B* { return new Sdtp({.samples = es}); });
}
BoxCase k_sgpd(Rng& r) {
  const unsigned k = big_lists() && r.chance(1, 3) ? 2 : static_cast<unsigned>(r.below(6));
  static const char* gt[] = {"roll", "prol", "alst", "rap ", "tele", nullptr};
  static const char* names[] = {"RollDistances", "RollDistances", "AlternativeStartupEntries",
                                "VisualRandomAccessEntries", "TemporalLevelEntries", ""};
  Type4 g;
  if (k < 5) {
    g = t4(gt[k]);
  } else {
    do g = fourcc(r);
    while (g == t4("roll") || g == t4("prol") || g == t4("alst") || g == t4("rap ") || g == t4("tele"));
  }
  const std::uint8_t v = k == 2 || r.chance(2, 3) ? 1 : 2;
  const auto f = anyflags(r);
  const bool own_length = v == 1 && k < 5 && r.flag();
  // sometimes one entry beyond 65535 bytes
  const bool long_entry = k == 2 && big_lists() && r.chance(3, 4);
  const std::size_t n = k >= 5 ? 0 : long_entry ? 1 : list_len(r);
  const auto dsdi = r.u32();
  // alternative startup entries of equal size when a default length applies
  const std::size_t alst_words = long_entry ? r.pick(std::vector<std::size_t>{16382, 16383, 16384, 70001}) : r.below(6);
  std::uint32_t deflen = 0;
  if (v == 1 && !own_length) {
    if (k < 2) deflen = 2;
    else if (k == 2) deflen = static_cast<std::uint32_t>(4 + 4 * alst_words);
    else if (k < 5) deflen = 1;
    else deflen = r.u32();
  }
  Enc e;
  e.full(v, f).raw(g).u32(v == 1 ? deflen : dsdi);
  std::string s = " GroupingType=\"" + as_string(g) + "\"";
  s += v == 1 ? fmt::format(" DefaultLength={}", deflen) : fmt::format(" DefaultSampleDescriptionIndex={}", dsdi);
  List l;
  std::vector<RollDistance> rolls;
  std::vector<AlternativeStartupEntry> alsts;
  std::vector<VisualRandomAccessEntry> raps;
  std::vector<TemporalLevelEntry> teles;
  if (k < 5) e.u32(n);
  for (std::size_t i = 0; i < n; ++i) {
    std::uint32_t len = k < 2 ? 2 : 1;
    std::size_t words = 0, nroll = 0;
    if (k == 2) {
      words = own_length && !long_entry ? r.below(8) : alst_words;
      nroll = r.below(std::min<std::size_t>(words, 65535) + 1);
      len = static_cast<std::uint32_t>(4 + 4 * words);
    }
    const std::string pre = own_length ? fmt::format("DescriptionLength={} ", len) : "";
    if (own_length) e.u32(len);
    const std::uint32_t dl = own_length ? len : 0;
    if (k < 2) {
      const auto d = static_cast<std::int16_t>(r.sedge(16));
      rolls.push_back(RollDistance({.description_length = dl, .roll_distance = d}));
      e.u16(static_cast<std::uint16_t>(d));
      l.add(own_length ? fmt::format("{{{}RollDistance={}}}", pre, d) : fmt::format("{}", d));
    } else if (k == 2) {
      const auto first = r.u16();
      List offs, opts;
      std::vector<std::uint32_t> so;
      std::vector<AlternativeStartupEntryOpt> oo;
      e.u16(nroll).u16(first);
      for (std::size_t j = 0; j < nroll; ++j) {
        so.push_back(r.u32());
        e.u32(so.back());
        offs.add(std::to_string(so.back()));
      }
      for (std::size_t j = nroll; j < words; ++j) {
        const auto a = r.u16(), b = r.u16();
        oo.push_back(AlternativeStartupEntryOpt({.num_output_samples = a, .num_total_samples = b}));
        e.u16(a).u16(b);
        opts.add(fmt::format("{{NumOutputSamples={} NumTotalSamples={}}}", a, b));
      }
      alsts.push_back(AlternativeStartupEntry({.description_length = dl,
                                               .roll_count = static_cast<std::uint16_t>(nroll),
                                               .first_output_sample = first,
                                               .sample_offsets = so,
                                               .opts = oo}));
      l.add(fmt::format("{{{}RollCount={} FirstOutputSample={} SampleOffset=[{}] Opts=[{}]}}", pre, nroll, first,
                        offs.s, opts.s));
    } else if (k == 3) {
      const bool known = r.flag();
      const auto num = static_cast<std::uint8_t>(r.edge(7));
      raps.push_back(VisualRandomAccessEntry(
          {.description_length = dl, .num_leading_samples_known = known, .num_leading_samples = num}));
      e.u(known, 1).u(num, 7);
      l.add(fmt::format("{{{}NumLeadingSamplesKnown={} NumLeadingSamples={:#x}}}", pre, known, num));
    } else {
      const bool ind = r.flag();
      teles.push_back(TemporalLevelEntry({.description_length = dl, .level_independently_decodable = ind}));
      e.u(ind, 1).u(0, 7);
      l.add(fmt::format("{{{}LevelIndependentlyRecodable={}}}", pre, ind));
    }
  }
  if (k < 5) s += fmt::format(" EntryCount={} {}{}=[{}]", n, names[k], own_length ? "L" : "", l.s);
  auto c = mkf("sgpd", strf("sgpd.v%u.%s%s", v, k < 5 ? gt[k] : "other", own_length ? ".L" : ""), v, f, e, s,
               [=]() -> B* {
                 return new Sgpd({.version = v,
                                  .flags = f,
                                  .grouping_type = g,
                                  .default_length = deflen,
                                  .default_sample_description_index = dsdi,
                                  .roll_distances = rolls,
                                  .alternative_startup_entries = alsts,
                                  .visual_random_access_entries = raps,
                                  .temporal_level_entries = teles});
               });
  if (k < 5) c.counts.push_back({12, 4, static_cast<std::size_t>(k < 2 ? 2 : 1)});
  return c;
}
BoxCase k_sidx(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const auto id = r.u32(), ts = r.u32();
  const auto ept = r.edge(v ? 64 : 32), fo = r.edge(v ? 64 : 32);
  std::size_t n = list_len(r);
  if (n > 65535) n = 65535;
  Enc e;
  e.full(v, f).u32(id).u32(ts).u(ept, v ? 64 : 32).u(fo, v ? 64 : 32).u16(0).u16(n);
  List l;
  std::vector<SidxReference> es;
  for (std::size_t i = 0; i < n; ++i) {
    const bool t = r.flag(), sap = r.flag();
    const auto size = static_cast<std::uint32_t>(r.edge(31)), dur = r.u32(), delta = static_cast<std::uint32_t>(r.edge(28));
    const auto st = static_cast<std::uint8_t>(r.below(8));
    es.push_back(SidxReference({.reference_type = t,
                                .reference_size = size,
                                .subsegument_duration = dur,
                                .starts_with_sap = sap,
                                .sap_type = st,
                                .sap_delta_time = delta}));
    e.u(t, 1).u(size, 31).u32(dur).u(sap, 1).u(st, 3).u(delta, 28);
    l.add(fmt::format("{{ReferenceType={} ReferencedSize={} SubsegmentDuration={} StartsWithSAP={} SAPType={} "
                      "SAPDeltaTime={}}}",
                      t, size, dur, sap, st, delta));
  }
  auto c = mkf("sidx", strf("sidx.v%u", v), v, f, e,
               fmt::format(" ReferenceID={} Timescale={} EarliestPresentationTime={} FirstOffset={} ReferenceCount={} "
                           "References=[{}]",
                           id, ts, ept, fo, n, l.s),
               [=]() -> B* {
                 return new Sidx({.version = v,
                                  .flags = f,
                                  .reference_id = id,
                                  .timescale = ts,
                                  .earliest_presentation_time = ept,
                                  .first_offset = fo,
                                  .references = es});
               });
  return counted(c, v ? 30 : 22, 2, 12);
}
BoxCase k_stsc(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const std::size_t n = list_len(r);
  Enc e;
  e.full(v, f).u32(n);
  List l;
  std::vector<StscEntry> es;
  for (std::size_t i = 0; i < n; ++i) {
    const auto a = r.u32(), b = r.u32(), c = r.u32();
    es.push_back(StscEntry({.first_chunk = a, .samples_per_chunk = b, .sample_description_index = c}));
    e.u32(a).u32(b).u32(c);
    l.add(fmt::format("{{FirstChunk={} SamplesPerChunk={} SampleDescriptionIndex={}}}", a, b, c));
  }
  auto c = mkf("stsc", "stsc", v, f, e, fmt::format(" EntryCount={} Entries=[{}]", n, l.s),
               [=]() -> B* { return new Stsc({.version = v, .flags = f, .entries = es}); });
  c.vf_settable = true;
  return counted(c, 4, 4, 12);
}
BoxCase k_stss(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  std::vector<std::uint32_t> o(list_len(r));
  for (auto& x : o) x = r.u32();
  Enc e;
  e.full(v, f).u32(o.size());
  List l;
  for (auto x : o) e.u32(x), l.add(std::to_string(x));
  auto c = mkf("stss", "stss", v, f, e, fmt::format(" EntryCount={} SampleNumbers=[{}]", o.size(), l.s),
               [=]() -> B* { return new Stss({.version = v, .flags = f, .sample_numbers = o}); });
  c.vf_settable = true;
  return counted(c, 4, 4, 4);
}
BoxCase k_stsz(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const bool constant = r.chance(1, 4);
  const std::uint32_t size = constant ? 1 + static_cast<std::uint32_t>(r.below(0xffffffffU)) : 0;
  std::vector<std::uint32_t> o(list_len(r));
  for (auto& x : o) x = constant ? size : r.u32();
  Enc e;
  e.full(v, f).u32(size).u32(o.size());
  List l;
  if (!constant)
    for (auto x : o) e.u32(x), l.add(std::to_string(x));
  // the list of equal sizes is not part of the box, only its length is
  if (constant)
    for (auto x : o) l.add(std::to_string(x));
  auto c = mkf("stsz", constant ? "stsz.constant" : "stsz", v, f, e,
               fmt::format(" SampleSize={} SampleCount={} EntrySizes=[{}]", size, o.size(), l.s),
               [=]() -> B* { return new Stsz({.version = v, .flags = f, .sample_size = size, .entry_sizes = o}); });
  c.vf_settable = true;
  if (!constant) c.counts.push_back({8, 4, 4});
  if (constant) c.read_dump = vf(v, f) + fmt::format(" SampleSize={} SampleCount={} EntrySizes=[]", size, o.size());
  return c;
}
BoxCase k_stts(Rng& r) {
  const auto v = anyver(r);
  const auto f = anyflags(r);
  const std::size_t n = list_len(r);
  Enc e;
  e.full(v, f).u32(n);
  List l;
  std::vector<SttsEntry> es;
  for (std::size_t i = 0; i < n; ++i) {
    const auto a = r.u32(), b = r.u32();
    es.push_back(SttsEntry({.sample_count = a, .sample_duration = b}));
    e.u32(a).u32(b);
    l.add(fmt::format("{{SampleCount={} SampleDuration={}}}", a, b));
  }
  auto c = mkf("stts", "stts", v, f, e, fmt::format(" EntryCount={} Entries=[{}]", n, l.s),
               [=]() -> B* { return new Stts({.version = v, .flags = f, .entries = es}); });
  c.vf_settable = true;
  return counted(c, 4, 4, 8);
}
BoxCase k_tfra(Rng& r) {
  const std::uint8_t v = r.flag();
  const auto f = anyflags(r);
  const auto id = r.u32();
  const std::uint8_t a = static_cast<std::uint8_t>(r.below(4)), b = static_cast<std::uint8_t>(r.below(4)),
                     s = static_cast<std::uint8_t>(r.below(4));
  const std::size_t n = list_len(r);
  const unsigned w = v ? 64 : 32;
  Enc e;
  e.full(v, f).u32(id).u(0, 26).u(a, 2).u(b, 2).u(s, 2).u32(n);
  List l;
  std::vector<TfraEntry> es;
  for (std::size_t i = 0; i < n; ++i) {
    const auto t = r.edge(w), o = r.edge(w);
    const auto x = static_cast<std::uint32_t>(r.edge(8 * (a + 1U))), y = static_cast<std::uint32_t>(r.edge(8 * (b + 1U))),
               z = static_cast<std::uint32_t>(r.edge(8 * (s + 1U)));
    es.push_back(TfraEntry({.time = t, .moof_offset = o, .traf_number = x, .trun_number = y, .sample_number = z}));
    e.u(t, w).u(o, w).u(x, 8 * (a + 1U)).u(y, 8 * (b + 1U)).u(z, 8 * (s + 1U));
    l.add(fmt::format("{{Time={} MoofOffset={} TrafNumber={} TrunNumber={} SampleNumber={}}}", t, o, x, y, z));
  }
  auto c = mkf("tfra", strf("tfra.v%u.%u%u%u", v, a, b, s), v, f, e,
               fmt::format(" TrackID={} LengthSizeOfTrafNum={:#x} LengthSizeOfTrunNum={:#x} LengthSizeOfSampleNum={:#x} "
                           "NumberOfEntry={} Entries=[{}]",
                           id, a, b, s, n, l.s),
               [=]() -> B* {
                 return new Tfra({.version = v,
                                  .flags = f,
                                  .track_id = id,
                                  .length_size_of_traf_num = a,
                                  .length_size_of_trun_num = b,
                                  .length_size_of_sample_num = s,
                                  .entries = es});
               });
  return counted(c, 12, 4, 2 * w / 8 + 3U + a + b + s);
}
BoxCase k_trun(Rng& r) {
  const std::uint8_t v = r.flag();
  std::uint32_t f = 0;
  for (std::uint32_t bit : {0x1U, 0x4U, 0x100U, 0x200U, 0x400U, 0x800U})
    if (r.flag()) f |= bit;
  if (r.chance(1, 8)) f = static_cast<std::uint32_t>(r.edge(24));
  const auto off = static_cast<std::int32_t>(r.sedge(32));
  const auto first = r.u32();
  const std::size_t n = list_len(r);
  Enc e;
  e.full(v, f).u32(n);
  std::string s = fmt::format(" SampleCount={}", n);
  if (f & 1) e.u32(static_cast<std::uint32_t>(off)), s += fmt::format(" DataOffset={}", off);
  if (f & 4) e.u32(first), s += fmt::format(" FirstSampleFlags={:#x}", first);
  List l;
  std::vector<TrunEntry> es;
  for (std::size_t i = 0; i < n; ++i) {
    const auto d = r.u32(), z = r.u32(), g = r.u32();
    const auto o = v ? r.sedge(32) : static_cast<std::int64_t>(r.edge(32));
    es.push_back(TrunEntry(
        {.sample_duration = d, .sample_size = z, .sample_flags = g, .sample_composition_time_offset = o}));
    std::vector<std::string> p;
    if (f & 0x100) e.u32(d), p.push_back(fmt::format("SampleDuration={}", d));
    if (f & 0x200) e.u32(z), p.push_back(fmt::format("SampleSize={}", z));
    if (f & 0x400) e.u32(g), p.push_back(fmt::format("SampleFlags={:#x}", g));
    if (f & 0x800) e.u32(static_cast<std::uint32_t>(o)), p.push_back(fmt::format("SampleCompositionTimeOffset={}", o));
    std::string q;
    for (const auto& x : p) q += (q.empty() ? "" : " ") + x;
    l.s += (i ? ", {" : "{") + q + "}";
  }
  auto c = mkf("trun", strf("trun.%03x", f & 0xf05), v, f, e, s + " Entries=[" + l.s + "]", [=]() -> B* {
    return new Trun(
        {.version = v, .flags = f, .data_offset = off, .first_sample_flags = first, .entries = es});
  });
  const std::size_t el = static_cast<std::size_t>(4 * __builtin_popcount(f & 0xf00));
  if (el > 0) c.counts.push_back({4, 4, el});
  return c;
}

}  // namespace

void add_kinds_table(std::vector<Kind>& k) {
  k.insert(k.end(), {{"co64", k_co64}, {"stco", k_stco}, {"ctts", k_ctts}, {"elst", k_elst}, {"sbgp", k_sbgp},
                     {"sdtp", k_sdtp}, {"sgpd", k_sgpd}, {"sidx", k_sidx}, {"stsc", k_stsc}, {"stss", k_stss},
                     {"stsz", k_stsz}, {"stts", k_stts}, {"tfra", k_tfra}, {"trun", k_trun}});
}

}  // namespace vh
