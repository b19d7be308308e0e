#include <sys/mman.h>
#include "scenario.hpp"

#include <fmt/format.h>

#include <algorithm>
#include <cmath>
#include <memory>

#include "gen_util.hpp"
#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/vpx.hpp"

namespace vh {

WriteFault write_fault;

const char* kind_name(Kind7 k) {
  static const char* n[] = {"AAC", "MP3", "OPUS", "AV1", "VP8", "VP9", "H264"};
  return n[static_cast<int>(k)];
}

// a NAL unit without start codes inside and without zero bytes at the end
Bytes gen_nal(Rng& r, unsigned type, std::size_t max) {
  Bytes b;
  b.push_back(static_cast<std::uint8_t>(r.below(4) << 5 | type));
  const std::size_t n = r.below(max + 1);
  for (std::size_t i = 0; i < n; ++i) {
    std::uint8_t c;
    switch (r.below(4)) {
      case 0: c = static_cast<std::uint8_t>(r.below(4)); break;
      case 1: c = r.chance(1, 2) ? 0 : 1; break;
      default: c = static_cast<std::uint8_t>(r.next());
    }
    const std::size_t k = b.size();
    if (c < 3 && k >= 2 && b[k - 1] == 0 && b[k - 2] == 0) c = 3;
    b.push_back(c);
  }
  if (b.back() == 0) b.push_back(0x80);
  return b;
}

Bytes annexb(const std::vector<Nal>& nals) {
  Bytes b;
  for (const auto& n : nals) {
    if (n.long_code) b.push_back(0);
    b.insert(b.end(), {0, 0, 1});
    b.insert(b.end(), n.data.begin(), n.data.end());
  }
  return b;
}

namespace {

void gen_h264_call(Rng& r, Call& c, std::size_t max, std::vector<Bytes>& sets) {
  const auto add = [&](Bytes d) { c.nals.push_back({std::move(d), r.flag()}); };
  // parameter sets, often repeated from earlier calls
  if (r.chance(1, 4)) {
    for (unsigned i = static_cast<unsigned>(r.below(4)); i-- > 0;) {
      if (!sets.empty() && r.chance(2, 3)) {
        add(r.pick(sets));
      } else if (!sets.empty() && sets.size() < 14 && r.chance(1, 2)) {  // nearly the same as an earlier one
        Bytes d = r.pick(sets);
        switch (r.below(3)) {
          case 0: d.push_back(static_cast<std::uint8_t>(r.range(3, 255))); break;
          case 1: d.back() = static_cast<std::uint8_t>(r.range(3, 255)); break;
          default: {
            // one byte inside, kept clear of start codes
            const std::size_t k = r.below(d.size());
            if (k > 0) d[k] = static_cast<std::uint8_t>(r.range(3, 255));
            else d[0] ^= 0x20;
          }
        }
        if (d.size() != 1 && d.size() != 4) {
          if (std::find(sets.begin(), sets.end(), d) == sets.end()) sets.push_back(d);
          add(d);
        }
      } else if (sets.size() < 14) {
        do sets.push_back(gen_nal(r, r.flag() ? 7 : 8, 30));
        while (sets.back().size() == 4 && (sets.pop_back(), true));  // just too short for a profile and level: either reading is fine
        add(sets.back());
      }
    }
  }
  if (r.chance(1, 6)) add(gen_nal(r, 6, 20));
  for (unsigned i = r.chance(1, 4) ? static_cast<unsigned>(r.below(4)) : 1; i-- > 0;) add(gen_nal(r, static_cast<unsigned>(r.range(1, 5)), max));
  if (r.chance(1, 10)) add(gen_nal(r, 6, 20));
  if (c.nals.empty()) add(gen_nal(r, 5, max));
  c.data = annexb(c.nals);
}

std::uint64_t duration_units(std::uint32_t timescale, float duration) {
  return static_cast<std::uint64_t>(static_cast<double>(timescale) * static_cast<double>(duration));
}

}  // namespace

void fit_durations(Spec& s) {
  double longest = static_cast<double>(s.duration);
  for (const auto& t : s.tracks) longest = std::max(longest, static_cast<double>(t.duration));
  while (s.mvhd_timescale > 1 && static_cast<double>(s.mvhd_timescale) * longest > 9e18) s.mvhd_timescale = 1 + s.mvhd_timescale / 1000;
}

Spec gen_spec(Rng& r, const SpecOptions& o) {
  Spec s;
  s.faststart = r.flag();
  s.mvhd_timescale = r.chance(1, 2) ? 1000 : r.pick(std::vector<std::uint32_t>{600, 1, 90000, 48000, 1000000, 0x7fffffff, 12345});
  s.own_ftyp = r.chance(1, 2);
  if (s.own_ftyp) {
    s.major = fourcc(r);
    s.minor = r.u32();
    for (auto n = r.below(5); n-- > 0;) s.brands.push_back(fourcc(r));
  }
  const std::size_t nt = o.crowd ? r.range(60, 300) : r.chance(1, 30) ? 0 : r.chance(1, 25) ? r.range(5, 12) : r.range(1, o.max_tracks);
  for (std::size_t i = 0; i < nt; ++i) {
    TrackSpec t;
    t.kind = r.pick(o.kinds);
    if (t.kind == Kind7::AAC || t.kind == Kind7::MP3) {
      t.timescale = r.pick(std::vector<std::uint32_t>{48000, 44100, 8000, 65535, 1, 22050, 32768, 96000, 65536, 192000});
    } else if (t.kind != Kind7::OPUS) {
      t.timescale = r.pick(std::vector<std::uint32_t>{90000, 16000, 600, 30, 1000, 1, 1000000, 0x80000000U, 0xffffffffU});
    }
    t.media_time = r.chance(1, 2) ? 0 : r.chance(1, 3) ? r.sedge(32) : r.chance(1, 5) ? r.sedge(64) : static_cast<std::int64_t>(r.below(5000)) - 500;
    if (r.chance(1, 10)) t.media_time = r.pick(std::vector<std::int64_t>{0x7fffffffLL, 0x80000000LL, -0x80000000LL, -0x80000001LL, -1});
    t.set_media_time = r.chance(1, 4);
    t.width = static_cast<std::uint32_t>(r.chance(1, 3) ? r.edge(16) : r.range(1, 4096));
    t.height = static_cast<std::uint32_t>(r.chance(1, 3) ? r.edge(16) : r.range(1, 4096));
    t.buffer = static_cast<std::uint32_t>(r.edge(24));
    t.max_bitrate = r.u32();
    t.avg_bitrate = r.u32();
    t.pre_skip = r.edge(16);
    t.roll = static_cast<std::int16_t>(r.chance(1, 2) ? -4 : r.sedge(16));
    t.av1[0] = static_cast<std::uint8_t>(r.below(8));
    t.av1[1] = static_cast<std::uint8_t>(r.below(32));
    t.av1[2] = static_cast<std::uint8_t>(r.below(2));
    t.av1[3] = static_cast<std::uint8_t>(r.below(2));
    t.av1[4] = static_cast<std::uint8_t>(r.below(2));
    t.av1[5] = static_cast<std::uint8_t>(r.below(4));
    if (r.chance(2, 3)) {
      t.obus = r.bytes(r.below(60));
      t.set_obus = r.chance(1, 3);
    }
    t.h264[0] = r.chance(1, 2) ? 1 : r.u8();
    t.h264[1] = r.chance(1, 2) ? 0x42 : r.u8();
    t.h264[2] = r.u8();
    t.h264[3] = r.u8();
    if (r.chance(1, 8)) {
      TrackSpec d;
      d.kind = t.kind;
      d.timescale = t.timescale;
      d.width = t.width;
      d.height = t.height;
      d.pre_skip = t.pre_skip;
      if (t.kind == Kind7::AAC || t.kind == Kind7::MP3) {
        d.max_bitrate = t.max_bitrate;
        d.avg_bitrate = t.avg_bitrate;
      }
      d.minimal = true;
      t = d;
    }
    t.id_gap = r.chance(1, 6) ? static_cast<unsigned>(r.range(1, 3)) : r.chance(1, 40) ? static_cast<unsigned>(r.range(250, 70000)) : 0;
    s.tracks.push_back(t);
    s.append.push_back(i);
  }
  if (nt && r.chance(1, 3))
    for (std::size_t i = nt - 1; i > 0; --i) std::swap(s.append[i], s.append[r.below(i + 1)]);
  s.late = r.chance(1, 4);
  s.id_tail = r.chance(1, 5) ? static_cast<unsigned>(r.range(1, 3)) : 0;

  struct Timing {
    std::uint64_t first, now, step;
    unsigned style;
    bool any = false, kept = false;
    std::uint64_t last = 0;  // of the last stored sample
  };
  std::vector<Timing> tm(nt);
  std::vector<std::vector<Bytes>> sets(nt);
  for (std::size_t i = 0; i < nt; ++i) {
    auto& t = tm[i];
    t.first = r.chance(1, 2) ? 0 : o.wild_times && r.chance(1, 2) ? r.edge(40) : r.below(100000);
    t.now = t.first;
    t.step = r.chance(1, 2) ? std::max<std::uint64_t>(1, s.tracks[i].timescale / 50) : r.range(1, 3000);
    t.style = static_cast<unsigned>(r.below(5));
  }
  std::size_t total = nt == 0 ? 0 : o.many ? r.range(200, 3000) : r.chance(1, 12) ? r.below(3) : r.range(1, o.max_samples);
  std::size_t made = 0;
  std::size_t open = nt;  // the track with an unfinished chunk
  const unsigned run_style = static_cast<unsigned>(r.below(3));
  // one long run of tiny samples somewhere
  const std::size_t long_at = o.long_run && nt ? r.below(total + 1) : total + 1;
  const unsigned long_style = static_cast<unsigned>((r.below(4) + 1) / 2);  // 0: every sample its own chunk, 1: chunks as below
  const std::size_t k0 = r.range(1, 5), lengths[] = {k0, k0 + 256, k0, k0 + 65536};
  std::size_t at_length = r.range(1, 3), in_chunk = 0;
  bool long_done = !(o.long_run && nt);
  if (!long_done) total = std::max<std::size_t>(total, 1);
  while (made < total) {
    const std::size_t t = r.below(nt);
    if (open != nt && open != t) {
      Call c;
      c.track = open;
      c.terminate = true;
      s.calls.push_back(c);
    }
    if (r.chance(1, 12)) {  // needless, allowed
      Call c;
      c.track = r.below(nt);
      c.terminate = true;
      s.calls.push_back(c);
    }
    open = t;
    const bool longish = !long_done && made >= std::min(long_at, total - 1);
    if (longish) {
      long_done = true;
      total += o.long_run;
    }
    const std::size_t run = longish ? o.long_run : run_style == 0 ? 1 : run_style == 1 ? r.range(1, 4) : r.range(1, 20);
    for (std::size_t k = 0; k < run && made < total; ++k, ++made) {
      Call c;
      c.track = t;
      auto& g = tm[t];
      if (g.any) {
        switch (g.style) {
          case 0: g.now += g.step; break;
          case 1: g.now += r.chance(1, 3) ? 0 : g.step; break;
          case 2: g.now += r.below(2 * g.step + 1); break;
          case 3: g.now += r.chance(1, 5) ? r.below(100000) : g.step; break;
          default: g.now += o.wild_times && r.chance(1, 4) ? r.edge(32) : g.step + r.below(2);
        }
      }
      g.any = true;
      // a gap beyond 32 bits cannot be recorded (and is refused); parameter sets alone leave no sample
      if (g.kept && g.now - g.last > 0xffffffffULL) g.now = g.last + 0xffffffffULL;
      c.ts = g.now;
      c.key = r.chance(1, 3);
      c.pointer = r.flag();
      const std::size_t max = longish ? 3 : o.max_size > 200 && r.chance(1, 1500) ? 150000 : r.chance(1, 25) && o.max_size > 40 ? o.max_size * 10UL : o.max_size;
      if (s.tracks[t].kind == Kind7::H264) {
        gen_h264_call(r, c, max, sets[t]);
        for (const auto& x : c.nals)
          if ((x.data[0] & 31) < 6) g.kept = true, g.last = g.now;
      } else {
        c.data = r.bytes(r.chance(1, 12) ? 0 : r.below(max + 1));
        g.kept = true;
        g.last = g.now;
      }
      s.calls.push_back(std::move(c));
      if (longish && long_style == 1) ++in_chunk;
      if (longish && (long_style == 0 || (long_style == 1 && in_chunk == lengths[at_length]))) {
        in_chunk = 0;
        at_length = (at_length + 1) % std::size(lengths);
        Call e;
        e.track = t;
        e.terminate = true;
        s.calls.push_back(e);
      }
    }
    if (r.chance(1, 4)) {
      Call c;
      c.track = t;
      c.terminate = true;
      s.calls.push_back(c);
      if (r.chance(1, 4)) s.calls.push_back(c);
      open = nt;
    }
  }
  if (o.huge_sample) {  // beyond 2^24 bytes
    for (std::size_t i = 0; i < s.calls.size(); ++i) {
      auto& c = s.calls[r.below(s.calls.size())];
      if (c.terminate) continue;
      const std::size_t k = (1 << 24) + r.below(1 << 20) - (1 << 18);
      if (s.tracks[c.track].kind == Kind7::H264) {
        if (c.nals.empty() || (c.nals.back().data[0] & 31) > 5) continue;
        auto& d = c.nals.back().data;
        while (d.size() < k) d.push_back(static_cast<std::uint8_t>(r.next() | 4));
        c.data = annexb(c.nals);
      } else {
        c.data = r.bytes(k);
      }
      break;
    }
  }
  if (o.big_data) {
    // one sample brings the total to around a multiple of the copy buffer
    std::uint64_t sum = 0;
    for (const auto& c : s.calls) sum += c.data.size();
    for (std::size_t i = s.calls.size(); i-- > 0;) {
      auto& c = s.calls[i];
      if (c.terminate || s.tracks[c.track].kind == Kind7::H264) continue;
      const std::uint64_t mib = 1 << 20;
      std::uint64_t want = r.range(1, 3) * mib + r.below(5) - 2;
      while (want < sum - c.data.size()) want += mib;
      c.data = r.bytes(want - (sum - c.data.size()));
      break;
    }
  }
  double longest = 0;
  for (std::size_t i = 0; i < nt; ++i) {
    auto& t = s.tracks[i];
    const std::uint64_t last = tm[i].last;
    std::uint64_t want = last;
    switch (r.below(6)) {
      case 0: want = last / 2; break;                                     // shorter than its samples
      case 1: want = last; break;
      case 2: want = last + r.below(0xf0000000ULL); break;
      default: want = last + tm[i].step * r.below(4);
    }
    t.duration = static_cast<float>(static_cast<double>(want) / t.timescale);
    if (r.chance(1, 4)) t.duration = std::ceil(t.duration);
    while (duration_units(t.timescale, t.duration) > last + 0xf8000000ULL) t.duration = static_cast<float>(static_cast<double>(last) / t.timescale);
    longest = std::max(longest, static_cast<double>(t.duration));
  }
  s.duration = r.chance(2, 3) ? static_cast<float>(longest) : static_cast<float>(r.below(100000)) / 7.0f;
  fit_durations(s);
  return s;
}

std::string summary(const Spec& s) {
  std::string t;
  std::size_t n = 0, bytes = 0, chunks = 0;
  for (const auto& c : s.calls) {
    if (c.terminate) {
      ++chunks;
    } else {
      ++n;
      bytes += c.data.size();
    }
  }
  for (const auto& x : s.tracks) t += std::string(t.empty() ? "" : "+") + kind_name(x.kind) + fmt::format("/{}", x.timescale);
  return fmt::format("{} [{}] {} calls {} terminations {} bytes, duration {} at {}", s.faststart ? "faststart" : "simple", t, n, chunks, bytes,
                     s.duration, s.mvhd_timescale);
}

using namespace mp4::track;

std::unique_ptr<Track> make_track(const TrackSpec& t, std::uint32_t id, mp4::writer::Writer* w) {
  const std::int64_t mt = t.set_media_time ? 0 : t.media_time;
  std::unique_ptr<Track> p;
  if (t.minimal) {
    switch (t.kind) {
      case Kind7::AAC:
        p.reset(new AACTrack({.timescale = t.timescale, .duration = t.duration, .track_id = id, .max_bitrate = t.max_bitrate, .avg_bitrate = t.avg_bitrate, .writer = w}));
        break;
      case Kind7::MP3:
        p.reset(new MP3Track({.timescale = t.timescale, .duration = t.duration, .track_id = id, .max_bitrate = t.max_bitrate, .avg_bitrate = t.avg_bitrate, .writer = w}));
        break;
      case Kind7::OPUS:
        p.reset(new OpusTrack({.pre_skip = t.pre_skip, .duration = t.duration, .track_id = id, .writer = w}));
        break;
      case Kind7::AV1:
        p.reset(new AV1Track({.timescale = t.timescale, .duration = t.duration, .track_id = id, .width = t.width, .height = t.height, .writer = w}));
        break;
      case Kind7::VP8:
        p.reset(new VPXTrack({.codec = VPXCodec::VP8, .timescale = t.timescale, .duration = t.duration, .track_id = id, .width = t.width, .height = t.height, .writer = w}));
        break;
      case Kind7::VP9:
        p.reset(new VPXTrack({.timescale = t.timescale, .duration = t.duration, .track_id = id, .width = t.width, .height = t.height, .writer = w}));
        break;
      case Kind7::H264:
        p.reset(new H264Track({.timescale = t.timescale, .duration = t.duration, .track_id = id, .width = t.width, .height = t.height, .writer = w}));
        break;
    }
    return p;
  }
  switch (t.kind) {
    case Kind7::AAC:
      p = std::make_unique<AACTrack>(AACTrackParameters{.timescale = t.timescale,
                                                        .duration = t.duration,
                                                        .media_time = mt,
                                                        .track_id = id,
                                                        .buffer_size_db = t.buffer,
                                                        .max_bitrate = t.max_bitrate,
                                                        .avg_bitrate = t.avg_bitrate,
                                                        .writer = w});
      break;
    case Kind7::MP3:
      p = std::make_unique<MP3Track>(MP3TrackParameters{.timescale = t.timescale,
                                                        .duration = t.duration,
                                                        .media_time = mt,
                                                        .track_id = id,
                                                        .buffer_size_db = t.buffer,
                                                        .max_bitrate = t.max_bitrate,
                                                        .avg_bitrate = t.avg_bitrate,
                                                        .writer = w});
      break;
    case Kind7::OPUS:
      if (t.roll == -4)
        p = std::make_unique<OpusTrack>(OpusTrackParameters{
            .pre_skip = t.pre_skip, .duration = t.duration, .media_time = mt, .track_id = id, .writer = w});
      else
        p = std::make_unique<OpusTrack>(OpusTrackParameters{.pre_skip = t.pre_skip,
                                                            .duration = t.duration,
                                                            .media_time = mt,
                                                            .roll_distance = t.roll,
                                                            .track_id = id,
                                                            .writer = w});
      break;
    case Kind7::AV1: {
      const Bytes standard{0xa, 0xb, 0x0, 0x0, 0x0, 0x4, 0x47, 0x7e, 0x1a, 0xff, 0xfc, 0xc0, 0x20};
      const Bytes obus = t.obus && !t.set_obus ? *t.obus : standard;
      std::unique_ptr<AV1Track> a;
      if (t.obus)
        a = std::make_unique<AV1Track>(AV1TrackParameters{.timescale = t.timescale,
                                                          .media_time = mt,
                                                          .duration = t.duration,
                                                          .track_id = id,
                                                          .width = t.width,
                                                          .height = t.height,
                                                          .seq_profile = t.av1[0],
                                                          .seq_level_idx_0 = t.av1[1],
                                                          .seq_tier_0 = t.av1[2],
                                                          .chroma_subsampling_x = t.av1[3],
                                                          .chroma_subsampling_y = t.av1[4],
                                                          .chroma_sample_position = t.av1[5],
                                                          .config_OBUs = obus,
                                                          .writer = w});
      else
        a.reset(new AV1Track({.timescale = t.timescale,
                              .media_time = mt,
                              .duration = t.duration,
                              .track_id = id,
                              .width = t.width,
                              .height = t.height,
                              .seq_profile = t.av1[0],
                              .seq_level_idx_0 = t.av1[1],
                              .seq_tier_0 = t.av1[2],
                              .chroma_subsampling_x = t.av1[3],
                              .chroma_subsampling_y = t.av1[4],
                              .chroma_sample_position = t.av1[5],
                              .writer = w}));
      if (t.set_obus) a->setConfigOBUs(*t.obus);
      p = std::move(a);
      break;
    }
    case Kind7::VP8:
    case Kind7::VP9:
      p = std::make_unique<VPXTrack>(VPXTrackParameters{.codec = t.kind == Kind7::VP8 ? VPXCodec::VP8 : VPXCodec::VP9,
                                                        .timescale = t.timescale,
                                                        .media_time = mt,
                                                        .duration = t.duration,
                                                        .track_id = id,
                                                        .width = t.width,
                                                        .height = t.height,
                                                        .max_bitrate = t.max_bitrate,
                                                        .avg_bitrate = t.avg_bitrate,
                                                        .writer = w});
      break;
    case Kind7::H264:
      p = std::make_unique<H264Track>(H264TrackParameters{.timescale = t.timescale,
                                                          .media_time = mt,
                                                          .duration = t.duration,
                                                          .track_id = id,
                                                          .width = t.width,
                                                          .height = t.height,
                                                          .configuration_version = t.h264[0],
                                                          .profile = t.h264[1],
                                                          .profile_compatibility = t.h264[2],
                                                          .level = t.h264[3],
                                                          .writer = w});
      break;
  }
  if (t.set_media_time) p->setMediaTime(t.media_time);
  return p;
}

Result execute(const Spec& s, std::ostream& os, const Stage& stage) {
  Result res;
  std::unique_ptr<mp4::writer::Writer> w;
  mp4::writer::SimpleWriter* simple = nullptr;
  mp4::writer::FaststartWriter* fast = nullptr;
  std::vector<mp4::Brand> brands(s.brands.begin(), s.brands.end());
  if (s.faststart) {
    if (s.own_ftyp)
      fast = new mp4::writer::FaststartWriter(
          os, {.mvhd_timescale = s.mvhd_timescale,
               .duration = s.duration,
               .mdat_path_templete = s.path_template,
               .ftyp_params = {.major_brand = s.major, .minor_version = s.minor, .compatible_brands = brands}});
    else
      fast = new mp4::writer::FaststartWriter(
          os, {.mvhd_timescale = s.mvhd_timescale, .duration = s.duration, .mdat_path_templete = s.path_template});
    w.reset(fast);
    res.intermediate = fast->getIntermediateFilePath().string();
  } else {
    if (s.own_ftyp)
      simple = new mp4::writer::SimpleWriter(
          os, {.mvhd_timescale = s.mvhd_timescale,
               .duration = s.duration,
               .ftyp_params = {.major_brand = s.major, .minor_version = s.minor, .compatible_brands = brands}});
    else
      simple = new mp4::writer::SimpleWriter(os, {.mvhd_timescale = s.mvhd_timescale, .duration = s.duration});
    w.reset(simple);
  }
  const auto at = [&](const char* what) {
    if (stage) stage(what, w.get());
  };
  at("created");
  res.epoch = w->getTimeFromEpoch();
  w->writeFtypBox();
  at("ftyp");
  std::vector<std::unique_ptr<Track>> tracks(s.tracks.size());
  res.ids.resize(s.tracks.size());
  const auto create = [&](std::size_t i) {
    if (tracks[i]) return;
    for (unsigned g = 0; g < s.tracks[i].id_gap; ++g) w->getAndUpdateNextTrackID();
    res.ids[i] = w->getAndUpdateNextTrackID();
    tracks[i] = make_track(s.tracks[i], res.ids[i], w.get());
  };
  if (!s.late)
    for (std::size_t i = 0; i < tracks.size(); ++i) create(i);
  for (const auto& c : s.calls) {
    create(c.track);
    if (c.fault != Call::GOOD) {
      bool refused = false;
      if (c.fault == Call::UNWRITTEN) {
        // what precedes the failing write of a H.264 access unit is written
        std::int64_t front = 0;
        for (const auto& u : c.nals)
          if ((u.data[0] & 31) >= 1 && (u.data[0] & 31) <= 5) front += static_cast<std::int64_t>(u.data.size()) + 4;
        write_fault.after = front;
        write_fault.half = c.half;
      }
      try {
        if (c.fault == Call::NO_IDENTIFIER) {
          make_track(s.tracks[c.track], 0, w.get());
        } else if (c.fault == Call::OVERSIZE) {
          // the bytes are there, should anybody look
          static const std::uint8_t* huge = [] {
            void* p = ::mmap(nullptr, 0x100010000ULL, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            return p == MAP_FAILED ? nullptr : static_cast<const std::uint8_t*>(p);
          }();
          if (!huge) throw std::runtime_error("no address space");
          tracks[c.track]->addData(c.ts, huge, 0x100000000ULL + c.data.size(), c.key);
        } else if (c.pointer) {
          tracks[c.track]->addData(c.ts, c.data.data(), c.data.size(), c.key);
        } else {
          tracks[c.track]->addData(c.ts, c.data, c.key);
        }
      } catch (const std::exception&) {
        refused = true;
      }
      write_fault.after = -1;
      if (c.fault == Call::UNWRITTEN) os.clear();
      if (!refused) res.accepted.push_back(static_cast<std::size_t>(&c - s.calls.data()));
    } else if (c.terminate) {
      tracks[c.track]->terminateCurrentChunk();
    } else {
      Bytes copy = c.data;  // gone right after the call: the library has to have taken what it needs
      copy.shrink_to_fit();
      if (c.pointer)
        tracks[c.track]->addData(c.ts, copy.data(), copy.size(), c.key);
      else
        tracks[c.track]->addData(c.ts, copy, c.key);
      std::fill(copy.begin(), copy.end(), std::uint8_t{0xdd});
    }
    at("call");
  }
  for (std::size_t i = 0; i < tracks.size(); ++i) create(i);
  std::vector<Track*> order;
  for (auto i : s.append) order.push_back(tracks[i].get());
  w->appendTrakAndUdtaBoxInfo(order);
  at("appended");
  for (unsigned g = 0; g < s.id_tail; ++g) w->getAndUpdateNextTrackID();
  if (fast) {
    w->writeMoovBox();
    at("moov");
    fast->writeMdatHeader();
    at("mdat");
    fast->copyMdatData();
    at("copied");
  } else {
    simple->writeFreeBoxAndMdatHeader();
    at("mdat");
    w->writeMoovBox();
    at("moov");
  }
  res.next_id = w->getAndUpdateNextTrackID();
  return res;
}

namespace {

Bytes box(const char* type, const Bytes& payload) {
  Enc e;
  e.u32(payload.size() + 8).raw(t4(type)).raw(payload);
  return e.b;
}
Bytes btrt(std::uint32_t mx, std::uint32_t av) {
  Enc e;
  e.u32(0).u32(mx).u32(av);
  return box("btrt", e.b);
}
Bytes visual(const char* type, const TrackSpec& t, const Bytes& rest) {
  Enc e;
  e.u32(0).u16(0).u16(1).u16(0).u16(0).u32(0).u32(0).u32(0).u16(t.width).u16(t.height).u32(72 << 16).u32(72 << 16).u32(0).u16(1);
  e.raw(Bytes(32)).u16(24).u16(0xffff).raw(rest);
  return box(type, e.b);
}
Bytes audio(const char* type, std::uint32_t rate, const Bytes& rest) {
  Enc e;
  e.u32(0).u16(0).u16(1).u16(0).u16(0).u32(0).u16(2).u16(16).u16(0).u16(0).u16(rate > 0xffff ? 0 : rate).u16(0).raw(rest);
  return box(type, e.b);
}

Bytes sample_entry(const TrackSpec& t, std::uint32_t id, const ETrack& x) {
  Enc e;
  switch (t.kind) {
    case Kind7::AAC:
    case Kind7::MP3: {
      const bool aac = t.kind == Kind7::AAC;
      Enc dsi;
      if (aac) dsi.u8(5).var4(2).u8(0x11).u8(0x90);
      e.full(0, 0).u8(3).var4(static_cast<std::uint32_t>(3 + 18 + dsi.b.size() + 6)).u16(aac ? id & 0xffff : 0).u8(0);
      e.u8(4).var4(static_cast<std::uint32_t>(13 + dsi.b.size())).u8(aac ? 0x40 : 0x6b).u(5, 6).u(0, 1).u(1, 1).u24(t.buffer);
      e.u32(t.max_bitrate).u32(t.avg_bitrate).raw(dsi.b).u8(6).var4(1).u8(2);
      Bytes rest = box("esds", e.b);
      if (aac) {
        const Bytes b = btrt(t.max_bitrate, t.avg_bitrate);
        rest.insert(rest.end(), b.begin(), b.end());
      }
      return audio("mp4a", t.timescale, rest);
    }
    case Kind7::OPUS:
      e.u8(0).u8(2).u16(t.pre_skip).u32(48000).u16(0).u8(0);
      return audio("Opus", 48000, box("dOps", e.b));
    case Kind7::AV1: {
      const Bytes standard{0xa, 0xb, 0x0, 0x0, 0x0, 0x4, 0x47, 0x7e, 0x1a, 0xff, 0xfc, 0xc0, 0x20};
      e.u(1, 1).u(1, 7).u(t.av1[0], 3).u(t.av1[1], 5).u(t.av1[2], 1).u(0, 3).u(t.av1[3], 1).u(t.av1[4], 1).u(t.av1[5], 2).u8(0);
      e.raw(t.obus ? *t.obus : standard);
      return visual("av01", t, box("av1C", e.b));
    }
    case Kind7::VP8:
    case Kind7::VP9: {
      e.full(1, 0).u8(0).u8(21).u(8, 4).u(1, 3).u(0, 1).u8(2).u8(2).u8(2).u16(0);
      Enc rest;
      rest.raw(box("vpcC", e.b)).raw(box("fiel", {1, 0})).raw(box("pasp", {0, 0, 0, 1, 0, 0, 0, 1})).raw(btrt(t.max_bitrate, t.avg_bitrate));
      return visual(t.kind == Kind7::VP8 ? "vp08" : "vp09", t, rest.b);
    }
    case Kind7::H264: {
      std::uint8_t p = t.h264[1], c = t.h264[2], l = t.h264[3];
      if (!x.sps.empty() && x.sps[0].size() > 4) {
        p = x.sps[0][1];
        c = x.sps[0][2];
        l = x.sps[0][3];
      }
      e.u8(t.h264[0]).u8(p).u8(c).u8(l).u8(0xff).u(7, 3).u(x.sps.size(), 5);
      for (const auto& b : x.sps) e.u16(b.size()).raw(b);
      e.u8(x.pps.size());
      for (const auto& b : x.pps) e.u16(b.size()).raw(b);
      return visual("avc1", t, box("avcC", e.b));
    }
  }
  return {};
}

void once(std::vector<Bytes>& v, const Bytes& b) {
  if (std::find(v.begin(), v.end(), b) == v.end()) v.push_back(b);
}

}  // namespace

std::vector<ETrack> expect(const Spec& s, const Result& res) {
  std::vector<ETrack> out(s.tracks.size());
  for (const auto& c : s.calls) {
    if (c.terminate) continue;
    auto& t = out[c.track];
    if (c.fault != Call::GOOD && c.fault != Call::MALFORMED && c.fault != Call::UNWRITTEN) continue;
    if (s.tracks[c.track].kind != Kind7::H264) {
      if (c.fault != Call::GOOD) continue;
      t.samples.push_back({c.data, c.ts, c.key});
      continue;
    }
    for (const auto& n : c.nals) {
      const unsigned type = n.data[0] & 31;
      if (type >= 1 && type <= 5) {
        Enc e;
        e.u32(n.data.size()).raw(n.data);
        t.samples.push_back({e.b, c.ts, c.key});
      } else if (type == 7) {
        once(t.sps, n.data);
      } else if (type == 8) {
        once(t.pps, n.data);
      }
    }
  }
  for (std::size_t i = 0; i < out.size(); ++i) {
    Enc e;
    e.full(0, 0).u32(1).raw(sample_entry(s.tracks[i], res.ids[i], out[i]));
    out[i].stsd = e.b;
  }
  return out;
}

Bytes normalised(const Bytes& file, const DMovie& m) {
  Bytes b = file;
  for (std::size_t i = 0; i < m.time_fields.size(); ++i)
    std::fill_n(b.begin() + static_cast<long>(m.time_fields[i]), m.time_widths[i], std::uint8_t{0});
  return b;
}

}  // namespace vh
