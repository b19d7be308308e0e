// C09 C10 samples through the index, C11 timing, C12 sync and roll groups, C13 metadata, C14 H.264, C20 both writers alike, C26 refused calls.
#include <fmt/format.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <set>
#include <sstream>

#include "scenario.hpp"
#include "sparse.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "tree.hpp"

namespace vh {
namespace {
namespace fs = std::filesystem;

struct Recording {
  bool ok = false;
  Result res;
  Bytes file;
  DMovie m;
  std::vector<ETrack> want;
  std::string error;
};

class BreakableBuf : public MemBuf {
 protected:
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    return MemBuf::xsputn(p, static_cast<std::streamsize>(write_fault.room(static_cast<std::size_t>(n))));
  }
};

// records, and demultiplexes the outcome; a failure of either is reported under `key`
Recording record(Ctx& ctx, Spec& s, bool to_file, const Stage& stage = nullptr) {
  Recording rec;
  s.path_template = ctx.named(ctx.scratch + "/mdatXXXXXX");
  try {
    if (to_file) {
      const std::string path = ctx.scratch + "/out.mp4";
      {
        std::ofstream os(path, std::ios::binary);
        rec.res = execute(s, os, stage);
        os.close();
        if (!os) throw std::runtime_error("closing the output file failed");
      }
      rec.file = read_file(path);
      ::unlink(path.c_str());
    } else {
      BreakableBuf buf;
      std::ostream os(&buf);
      rec.res = execute(s, os, stage);
      os.flush();
      rec.file = buf.data;
    }
  } catch (const std::exception& e) {
    rec.error = std::string("a legal sequence of calls was refused: ") + e.what();
    ctx.check(false, "refused", [&] { return rec.error + " | " + summary(s); });
    return rec;
  }
  rec.want = expect(s, rec.res);
  try {
    rec.m = demux(source_of(rec.file));
    rec.ok = true;
  } catch (const std::exception& e) {
    rec.error = e.what();
    ctx.check(false, "structure", [&] { return "the recording is not a well-formed file: " + rec.error + " | " + summary(s); });
    return rec;
  }
  if (!ctx.check(rec.m.tracks.size() == s.tracks.size(), "track-count", [&] {
        return fmt::format("{} tracks recorded, {} appended | {}", rec.m.tracks.size(), s.tracks.size(), summary(s));
      }))
    rec.ok = false;
  ctx.count("recordings");
  ctx.count(s.faststart ? "faststart" : "simple");
  return rec;
}

// f(spec track index, recorded track, expectation)
template <typename F>
void each_track_of(const Spec& s, const DMovie& m, const std::vector<ETrack>& want, F f) {
  for (std::size_t k = 0; k < s.append.size(); ++k) f(s.append[k], m.tracks[k], want[s.append[k]]);
}
template <typename F>
void each_track(const Spec& s, const Recording& rec, F f) {
  each_track_of(s, rec.m, rec.want, f);
}

void check_samples(Ctx& ctx, const Spec& s, const Recording& rec) {
  std::vector<std::pair<std::uint64_t, std::uint64_t>> spans;
  const std::uint64_t lo = rec.m.mdat.data(), hi = rec.m.mdat.end();
  each_track(s, rec, [&](std::size_t i, const DTrack& t, const ETrack& want) {
    const std::string who = fmt::format("track {} ({})", i, kind_name(s.tracks[i].kind));
    if (!ctx.check(t.samples.size() == want.samples.size(), "sample-count", [&] {
          return fmt::format("{}: {} samples in the index, {} were added | {}", who, t.samples.size(), want.samples.size(), summary(s));
        }))
      return;
    for (std::size_t k = 0; k < t.samples.size(); ++k) {
      const auto& d = t.samples[k];
      const auto& w = want.samples[k].data;
      if (!ctx.check(d.size == w.size() && d.offset >= lo && d.offset + d.size <= hi &&
                         std::equal(w.begin(), w.end(), rec.file.begin() + static_cast<long>(d.offset)),
                     "sample", [&] {
                       return fmt::format("{}: sample {} is recorded as {} bytes at {} (media data {}..{}), which is not the {} bytes added | {}", who,
                                          k + 1, d.size, d.offset, lo, hi, w.size(), summary(s));
                     }))
        return;
      ctx.check(d.description == 1, "sample-description", [&] { return who + ": sample description index is not 1"; });
      if (d.size) spans.push_back({d.offset, d.offset + d.size});
    }
    ctx.count("samples", t.samples.size());
    ctx.maxi("samples_in_track", t.samples.size());
    ctx.count("chunks", t.chunk_offsets.size());
  });
  std::sort(spans.begin(), spans.end());
  std::uint64_t at = lo;
  bool good = true;
  for (const auto& [a, b] : spans) {
    good = good && a == at;
    at = b;
  }
  ctx.check(good && at == hi, "coverage", [&] {
    return fmt::format("the samples do not account for the media data {}..{} exactly once (up to {}) | {}", lo, hi, at, summary(s));
  });
  ctx.maxi("media_bytes", hi - lo);
}

std::string tops(const DMovie& m) {
  std::string s;
  for (const auto& b : m.top) s += b.type + " ";
  return s;
}

SpecOptions pick_options(Rng& r, std::uint64_t n) {
  SpecOptions o;
  o.big_data = n % 40 == 7;
  o.many = n % 50 == 11;
  if (n % 100 == 17) o.long_run = static_cast<unsigned>(r.range(300, 6000));
  if (n % 1000 == 23) o.long_run = static_cast<unsigned>(r.range(66000, 75000));
  o.crowd = n % 300 == 57;
  o.huge_sample = n % 400 == 91;
  o.wild_times = r.chance(1, 3);
  if (r.chance(1, 5)) o.max_size = static_cast<unsigned>(r.range(1, 40));
  if (r.chance(1, 20)) o.max_size = 3;
  return o;
}

// ---- C09, C10
void c09(Ctx& ctx, Rng& r, std::uint64_t n) {
  Spec s = gen_spec(r, pick_options(r, n));
  s.faststart = false;
  ctx.seen(summary(s));
  if (n < 3) ctx.sample(summary(s));
  const Recording rec = record(ctx, s, r.chance(1, 4));
  if (!rec.ok) return;
  const std::string t = tops(rec.m);
  ctx.check(t == "ftyp free mdat moov " || t == "ftyp mdat moov ", "order", [&] { return "top level boxes: " + t; });
  check_samples(ctx, s, rec);
}

std::map<std::string, Bytes> snapshot(const std::string& dir) {
  std::map<std::string, Bytes> m;
  for (const auto& e : fs::recursive_directory_iterator(dir))
    m[e.path().string()] = e.is_regular_file() ? read_file(e.path().string()) : Bytes{};
  return m;
}

void c10(Ctx& ctx, Rng& r, std::uint64_t n) {
  Spec s = gen_spec(r, pick_options(r, n));
  s.faststart = true;
  ctx.seen(summary(s));
  if (n < 3) ctx.sample(summary(s));
  const std::string dir = ctx.scratch + "/d";
  fs::create_directory(dir);
  for (const char* name : {"mdatXXXXXX", "mdat000000", "mdat", "other.bin"}) std::ofstream(dir + "/" + name) << "decoy " << name;
  const bool sub = r.chance(1, 3);
  if (sub) fs::create_directory(dir + "/sub dir");
  const std::string tmpl = ctx.named(dir + (sub ? "/sub dir" : "") + (r.flag() ? "/mdatXXXXXX" : "/my.recording-XXXXXX"));
  if (tmpl[0] != '/') ctx.count("relative_templates");
  // another recording of the same process, unfinished, with the same template
  MemBuf other_buf;
  std::ostream other_out(&other_buf);
  std::unique_ptr<mp4::writer::FaststartWriter> other;
  std::string other_path;
  const bool with_other = r.chance(1, 2);
  if (with_other) {
    other = std::make_unique<mp4::writer::FaststartWriter>(
        other_out, mp4::writer::FaststartWriterParameters{.duration = 1.0f, .mdat_path_templete = tmpl});
    const Bytes filler(70000, 0x5a);
    if (r.flag()) static_cast<mp4::writer::Writer&>(*other).addMdatData(filler);
    else other->addMdatData(filler.data(), filler.size());
    other_path = other->getIntermediateFilePath().string();
  }
  const auto before = snapshot(dir);
  bool seen_file = false;
  std::string path;
  const Stage stage = [&](const char* what, mp4::writer::Writer* w) {
    auto* f = dynamic_cast<mp4::writer::FaststartWriter*>(w);
    path = f->getIntermediateFilePath().string();
    const bool exists = fs::exists(path);
    if (std::string(what) == "copied") {
      ctx.check(!exists, "intermediate-left", [&] { return "the intermediate file is still there after the recording: " + path; });
    } else {
      ctx.check(exists, "intermediate-missing", [&] { return std::string("no intermediate file at ") + path + " after " + what; });
      seen_file |= exists;
    }
  };
  s.path_template = tmpl;
  Recording rec;
  {
    // record() sets its own template
    Spec copy = s;
    MemBuf buf;
    std::ostream os(&buf);
    std::string error;
    try {
      rec.res = execute(copy, os, stage);
    } catch (const std::exception& e) {
      error = e.what();
    }
    os.flush();
    rec.file = buf.data;
    if (ctx.check(error.empty(), "refused", [&] { return "a legal sequence of calls was refused: " + error + " | " + summary(s); })) {
      rec.want = expect(s, rec.res);
      try {
        rec.m = demux(source_of(rec.file));
        rec.ok = rec.m.tracks.size() == s.tracks.size();
        ctx.check(rec.ok, "track-count", [&] { return fmt::format("{} tracks recorded | {}", rec.m.tracks.size(), summary(s)); });
      } catch (const std::exception& e) {
        error = e.what();
        ctx.check(false, "structure", [&] { return "the recording is not a well-formed file: " + error + " | " + summary(s); });
      }
    }
  }
  ctx.count("recordings");
  const auto absolute = [&](const std::string& name) { return (fs::path(ctx.scratch) / name).lexically_normal().string(); };
  const std::string whole = absolute(tmpl), prefix = whole.substr(0, whole.size() - 6), place = absolute(path);
  ctx.check(seen_file && place.size() == whole.size() && place.compare(0, prefix.size(), prefix) == 0 && path != other_path, "intermediate-place",
            [&] { return "the intermediate file was " + path + ", asked for " + tmpl; });
  const auto after = snapshot(dir);
  ctx.check(before == after, "files-disturbed", [&] {
    std::string t = "the directory changed:";
    for (const auto& [k, v] : after)
      if (!before.count(k) || before.at(k) != v) t += " new or changed " + k;
    for (const auto& [k, v] : before)
      if (!after.count(k)) t += " removed " + k;
    return t;
  });
  if (rec.ok) {
    const std::string t = tops(rec.m);
    ctx.check(t == "ftyp moov mdat ", "order", [&] { return "top level boxes: " + t; });
    check_samples(ctx, s, rec);
  }
  if (with_other) {
    // the other recording can still be finished
    std::string error;
    try {
      ctx.count("interleaved_writers");
      other->writeFtypBox();
      other->appendTrakAndUdtaBoxInfo({});
      other->writeMoovBox();
      other->writeMdatHeader();
      other->copyMdatData();
      const Bytes f = other_buf.data;
      const DMovie m = demux(source_of(f));
      ctx.check(m.mdat.size == 70008 && std::all_of(f.begin() + static_cast<long>(m.mdat.data()), f.end(), [](auto c) { return c == 0x5a; }),
                "other-recording", [&] { return std::string("another recording with the same template was disturbed"); });
    } catch (const std::exception& e) {
      error = e.what();
      ctx.check(false, "other-recording", [&] { return "another recording with the same template failed: " + error; });
    }
  }
  other.reset();
  fs::remove_all(dir);
}

// ---- C11
void c11_gap(Ctx& ctx, Rng& r);
void c11(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (n % 12 == 5) return c11_gap(ctx, r);
  SpecOptions o = pick_options(r, n);
  o.wild_times = r.chance(1, 2);
  o.big_data = o.huge_sample = false;
  o.max_size = 8;
  Spec s = gen_spec(r, o);
  if (r.chance(1, 6)) {  // movie durations beyond 32 bits
    s.duration = static_cast<float>(std::ldexp(1.0 + static_cast<double>(r.below(100)) / 100.0, static_cast<int>(r.range(20, 40))));
    fit_durations(s);
  }
  ctx.seen(summary(s));
  if (n < 3) ctx.sample(summary(s));
  const Recording rec = record(ctx, s, false);
  if (!rec.ok) return;
  // the durations are given as 32-bit floating point seconds; products may be rounded to that precision
  const auto near = [&](std::uint64_t got, std::uint64_t timescale, float duration) {
    const double exact = static_cast<double>(timescale) * static_cast<double>(duration);
    return std::fabs(static_cast<double>(got) - exact) <= exact * 2.5e-7 + 1.0;
  };
  const auto check_duration = [&](std::uint64_t got, unsigned version, std::uint64_t timescale, float duration, const std::string& who) {
    const double exact = static_cast<double>(timescale) * static_cast<double>(duration);
    ctx.check(near(got, timescale, duration), "duration",
              [&] { return fmt::format("{} is {}, want {} s at {} = {} | {}", who, got, duration, timescale, exact, summary(s)); });
    ctx.count(version ? "durations_64" : "durations_32");
  };
  check_duration(rec.m.duration, rec.m.mvhd_version, s.mvhd_timescale, s.duration, "the movie duration");
  ctx.check(rec.m.timescale == s.mvhd_timescale, "timescale", [&] { return fmt::format("movie timescale {}", rec.m.timescale); });
  each_track(s, rec, [&](std::size_t i, const DTrack& t, const ETrack& want) {
    const auto& ts = s.tracks[i];
    const std::string who = fmt::format("track {} ({}) ", i, kind_name(ts.kind));
    const std::uint32_t scale = ts.kind == Kind7::OPUS ? 48000 : ts.timescale;
    ctx.check(t.timescale == scale, "timescale", [&] { return fmt::format("{}media timescale {} instead of {}", who, t.timescale, scale); });
    check_duration(t.tkhd_duration, t.tkhd_version, s.mvhd_timescale, ts.duration, who + "track duration");
    check_duration(t.mdhd_duration, t.mdhd_version, scale, ts.duration, who + "media duration");
    if (ctx.check(t.edits.size() == 1, "edits", [&] { return fmt::format("{}{} edits", who, t.edits.size()); })) {
      const auto& e = t.edits[0];
      check_duration(e.duration, t.elst_version, s.mvhd_timescale, ts.duration, who + "edit duration");
      ctx.check(e.media_time == ts.media_time, "media-time",
                [&] { return fmt::format("{}media start {} instead of {} | {}", who, e.media_time, ts.media_time, summary(s)); });
      ctx.check(e.rate == 1 && e.fraction == 0, "media-rate", [&] { return fmt::format("{}media rate {}.{}", who, e.rate, e.fraction); });
    }
    if (!ctx.check(t.samples.size() == want.samples.size(), "sample-count", [&] {
          return fmt::format("{}{} samples in the time table, {} added | {}", who, t.samples.size(), want.samples.size(), summary(s));
        }))
      return;
    for (std::size_t k = 0; k < t.samples.size(); ++k) {
      const std::uint64_t w = want.samples[k].ts - want.samples[0].ts;
      if (!ctx.check(t.samples[k].dts == w, "timestamp", [&] {
            return fmt::format("{}sample {} of {} is at {}, was added at {} relative to the first | {}", who, k + 1, t.samples.size(), t.samples[k].dts, w,
                               summary(s));
          }))
        return;
      ctx.count("timestamps");
    }
    if (!t.samples.empty()) {
      const double exact = static_cast<double>(scale) * static_cast<double>(ts.duration);
      const double last = static_cast<double>(want.samples.back().ts);
      const double tail = std::max(0.0, exact - last);
      ctx.check(std::fabs(static_cast<double>(t.samples.back().duration) - tail) <= exact * 2.5e-7 + 1.0, "last-sample", [&] {
        return fmt::format("{}the last sample lasts {}, from {} to the end at {} it should be {} | {}", who, t.samples.back().duration, last, exact, tail,
                           summary(s));
      });
      ctx.count(exact <= last ? "shorter_than_samples" : "last_samples");
      // the two agree exactly on where the track ends
      if (t.mdhd_duration == want.samples.back().ts) ctx.count("end_with_last_sample");
      if (t.mdhd_duration >= want.samples.back().ts)
        ctx.check(want.samples.back().ts + t.samples.back().duration == t.mdhd_duration, "end", [&] {
          return fmt::format("{}the last sample ends at {}, the media at {} | {}", who, want.samples.back().ts + t.samples.back().duration,
                             t.mdhd_duration, summary(s));
        });
    }
  });
}

// gaps that do not fit the time table are refused, or recorded faithfully after all
void c11_gap(Ctx& ctx, Rng& r) {
  SpecOptions o;
  o.max_tracks = 1;
  o.max_size = 8;
  o.kinds = {Kind7::AAC, Kind7::MP3, Kind7::OPUS, Kind7::AV1, Kind7::VP8, Kind7::VP9};
  Spec s;
  do s = gen_spec(r, o);
  while (s.tracks.empty() || s.calls.empty());
  std::vector<std::size_t> adds;
  for (std::size_t i = 0; i < s.calls.size(); ++i)
    if (!s.calls[i].terminate) adds.push_back(i);
  if (adds.empty()) return;
  auto& t = s.tracks[s.calls[adds[0]].track];
  const std::size_t tr = s.calls[adds[0]].track;
  adds.erase(std::remove_if(adds.begin(), adds.end(), [&](auto i) { return s.calls[i].track != tr; }), adds.end());
  const std::uint64_t gap = 0x100000000ULL + (r.flag() ? r.below(3) : r.edge(38));
  std::uint64_t last = 0;
  const bool at_end = adds.size() < 2 || r.chance(1, 2);
  const std::size_t from = at_end ? adds.size() : r.range(1, adds.size() - 1);
  for (std::size_t k = 0; k < adds.size(); ++k) {
    if (k == from) {
      // the gap is measured from the sample before
      const std::uint64_t shift = s.calls[adds[k - 1]].ts + gap - s.calls[adds[k]].ts;
      for (std::size_t j = k; j < adds.size(); ++j) s.calls[adds[j]].ts += shift;
    }
    last = s.calls[adds[k]].ts;
  }
  const std::uint32_t scale = t.kind == Kind7::OPUS ? 48000 : t.timescale;
  const double end = static_cast<double>(last) + (at_end ? static_cast<double>(gap) * 1.001 : 0.0);
  t.duration = static_cast<float>(end / scale);
  s.duration = t.duration;
  fit_durations(s);
  s.faststart = r.flag();
  s.path_template = ctx.named(ctx.scratch + "/mdatXXXXXX");
  MemBuf buf;
  std::ostream os(&buf);
  bool refused = false;
  Result res;
  std::string path;
  try {
    res = execute(s, os, [&](const char*, mp4::writer::Writer* w) {
      if (auto* f = dynamic_cast<mp4::writer::FaststartWriter*>(w)) path = f->getIntermediateFilePath().string();
    });
  } catch (const std::exception&) {
    refused = true;
    if (!path.empty()) ::unlink(path.c_str());
  }
  ctx.count(at_end ? "long_last_sample" : "long_gap");
  if (refused) {
    ctx.count("refused_gaps");
    ++ctx.evaluations;
    return;
  }
  const DMovie m = demux(source_of(buf.data));
  const auto want = expect(s, res);
  each_track_of(s, m, want, [&](std::size_t i, const DTrack& d, const ETrack& w) {
    if (i != tr) return;
    bool good = d.samples.size() == w.samples.size();
    for (std::size_t k = 0; good && k < d.samples.size(); ++k) good = d.samples[k].dts == w.samples[k].ts - w.samples[0].ts;
    if (good && at_end) good = static_cast<double>(d.samples.back().duration) >= static_cast<double>(gap);
    ctx.check(good, "gap", [&] { return fmt::format("a gap of {} is recorded wrongly without an error | {}", gap, summary(s)); });
  });
}

// ---- C12
void c12(Ctx& ctx, Rng& r, std::uint64_t n) {
  SpecOptions o = pick_options(r, n);
  o.big_data = o.huge_sample = false;
  o.max_size = 10;
  Spec s = gen_spec(r, o);
  if (r.chance(1, 4)) {  // uniform key flags
    const bool all = r.flag();
    for (auto& c : s.calls) c.key = all;
  }
  std::string sig = summary(s);
  for (const auto& c : s.calls) sig += c.key ? '1' : '0';
  ctx.seen(sig);
  if (n < 3) ctx.sample(summary(s));
  const Recording rec = record(ctx, s, false);
  if (!rec.ok) return;
  each_track(s, rec, [&](std::size_t i, const DTrack& t, const ETrack& want) {
    const auto& ts = s.tracks[i];
    const std::string who = fmt::format("track {} ({}) ", i, kind_name(ts.kind));
    if (is_video(ts.kind)) {
      ctx.count("video_tracks");
      std::vector<std::uint32_t> keys;
      for (std::size_t k = 0; k < want.samples.size(); ++k)
        if (want.samples[k].key) keys.push_back(static_cast<std::uint32_t>(k + 1));
      ctx.count("key_frames", keys.size());
      ctx.check(t.has_stss, "stss-missing", [&] { return who + "has no sync sample table, so every sample counts as a key frame"; });
      ctx.check(t.sync == keys, "sync", [&] {
        return fmt::format("{}sync samples [{}], key frames added [{}] of {}", who, fmt::join(t.sync, " "), fmt::join(keys, " "), want.samples.size());
      });
      ctx.check(t.groups.empty() && t.assigns.empty(), "groups", [&] { return who + "has sample groups"; });
      return;
    }
    ctx.count("audio_tracks");
    ctx.check(!t.has_stss, "stss", [&] { return who + "an audio track has a sync sample table"; });
    const bool roll = ts.kind == Kind7::AAC || ts.kind == Kind7::OPUS;
    if (!roll) {
      ctx.check(t.groups.empty() && t.assigns.empty(), "groups", [&] { return who + "has sample groups"; });
      return;
    }
    const std::int16_t distance = ts.kind == Kind7::AAC ? std::int16_t{-1} : ts.roll;
    ctx.check(t.groups.size() == 1 && t.groups[0].type == "roll" && t.groups[0].descriptions.size() == 1 &&
                  t.groups[0].descriptions[0] == Bytes{static_cast<std::uint8_t>(static_cast<std::uint16_t>(distance) >> 8), static_cast<std::uint8_t>(distance)},
              "roll-distance", [&] { return fmt::format("{}the roll group does not say {}", who, distance); });
    std::uint64_t covered = 0;
    bool good = t.assigns.size() == 1 && t.assigns[0].type == "roll";
    if (good)
      for (const auto& [count, index] : t.assigns[0].runs) {
        covered += count;
        good = good && index == 1;
      }
    ctx.check(good && covered == want.samples.size(), "roll-assignment", [&] {
      return fmt::format("{}{} of {} samples are assigned to the roll group | {}", who, covered, want.samples.size(), summary(s));
    });
    ctx.count("roll_tracks");
    ctx.maxi("roll_samples", covered);
  });
}

// ---- C13
std::uint64_t now1904() {
  return static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count()) +
         2082844800ULL;
}

void c13(Ctx& ctx, Rng& r, std::uint64_t n) {
  SpecOptions o;
  o.max_size = 10;
  o.max_samples = 10;
  Spec s = gen_spec(r, o);
  ctx.seen(summary(s) + strf("%u", s.tracks.empty() ? 0 : s.tracks[0].width));
  if (n < 3) ctx.sample(summary(s));
  const std::uint64_t t0 = now1904();
  const Recording rec = record(ctx, s, false);
  const std::uint64_t t1 = now1904();
  if (!rec.ok) return;
  const DMovie& m = rec.m;
  const auto check_time = [&](std::uint64_t v, const std::string& who) {
    ctx.check(v >= t0 && v <= t1 && v == rec.res.epoch, "time", [&] { return fmt::format("{} {} is not the time of the recording {}..{}", who, v, t0, t1); });
  };
  check_time(m.created, "movie creation time");
  check_time(m.modified, "movie modification time");
  // brands
  const std::string major = s.own_ftyp ? as_string(s.major) : "isom";
  const std::uint32_t minor = s.own_ftyp ? s.minor : 512;
  std::vector<std::string> brands{"isom", "iso2", "mp41"};
  if (s.own_ftyp) {
    brands.clear();
    for (const auto& b : s.brands) brands.push_back(as_string(b));
  }
  ctx.check(m.major == major && m.minor == minor && m.brands == brands, "brands",
            [&] { return fmt::format("file type {} {} [{}]", m.major, m.minor, fmt::join(m.brands, " ")); });
  ctx.check(m.tool == "shiguredo::mp4" && m.tool_type == 1 && m.tool_handler == "mdir", "user-data",
            [&] { return fmt::format("user data tag \"{}\" type {} handler {}", m.tool, m.tool_type, m.tool_handler); });
  ctx.check(m.moov.find("udta/meta/ilst/\xa9too/data") && &m.moov.kids.back() == m.moov.find("udta") && m.moov.kids.front().type == "mvhd", "movie-order",
            [&] { return std::string("movie header, tracks and user data are not in order"); });
  ctx.check(m.rate == 0x10000 && m.volume == 0x100, "movie-rate", [&] { return fmt::format("rate {} volume {}", m.rate, m.volume); });
  // identifiers
  std::set<std::uint32_t> ids;
  std::uint32_t max = 0;
  for (const auto& t : m.tracks) {
    ctx.check(t.id != 0 && ids.insert(t.id).second, "track-id", [&] { return fmt::format("track identifier {} is zero or used twice", t.id); });
    max = std::max(max, t.id);
  }
  ctx.check(m.next_track_id > max && m.next_track_id == rec.res.next_id, "next-track-id", [&] {
    return fmt::format("the next track identifier is {}, highest used {}, next free {}", m.next_track_id, max, rec.res.next_id);
  });
  each_track(s, rec, [&](std::size_t i, const DTrack& t, const ETrack& want) {
    const auto& ts = s.tracks[i];
    const bool video = is_video(ts.kind);
    const std::string who = fmt::format("track {} ({}): ", i, kind_name(ts.kind));
    ctx.count(std::string("tracks_") + kind_name(ts.kind));
    if (ts.minimal) ctx.count("tracks_with_defaults");
    check_time(t.tkhd_created, who + "creation time");
    check_time(t.tkhd_modified, who + "modification time");
    check_time(t.mdhd_created, who + "media creation time");
    check_time(t.mdhd_modified, who + "media modification time");
    ctx.check(t.id == rec.res.ids[i], "track-id", [&] { return fmt::format("{}identifier {} instead of {}", who, t.id, rec.res.ids[i]); });
    ctx.check(t.tkhd_flags == 3, "track-flags", [&] { return fmt::format("{}flags {:#x}", who, t.tkhd_flags); });
    ctx.check(t.volume == (video ? 0 : 0x100) && t.layer == 0 && t.alternate_group == 0, "track-volume", [&] { return fmt::format("{}volume {}", who, t.volume); });
    ctx.check(t.matrix == std::vector<std::int64_t>{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000}, "track-matrix", [&] { return who + "matrix is not unity"; });
    ctx.check(t.width == (video ? ts.width << 16 : 0) && t.height == (video ? ts.height << 16 : 0), "dimensions",
              [&] { return fmt::format("{}dimensions {:#x} {:#x} for {}x{}", who, t.width, t.height, ts.width, ts.height); });
    ctx.check(t.handler == (video ? "vide" : "soun") && t.handler_name == "shiguredo::mp4", "handler",
              [&] { return who + "handler " + t.handler + " \"" + t.handler_name + "\""; });
    ctx.check(t.media_header == (video ? "vmhd" : "smhd") && t.media_header_flags == (video ? 1 : 0), "media-header",
              [&] { return who + "media header " + t.media_header; });
    ctx.check(t.language == 0x55c4, "language", [&] { return fmt::format("{}language {:#x}", who, t.language); });
    ctx.check(t.dref == Bytes{0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 12, 'u', 'r', 'l', ' ', 0, 0, 0, 1}, "data-reference",
              [&] { return who + "data reference " + hex(t.dref); });
    ctx.check(t.stsd == want.stsd, "sample-entry", [&] { return who + "sample description: " + diff_bytes(t.stsd, want.stsd); });
  });
  // an identifier of zero never gets into a recording
  if (n % 4 == 0) {
    MemBuf buf;
    std::ostream os(&buf);
    mp4::writer::SimpleWriter w(os, {.duration = 1.0f});
    TrackSpec ts;
    ts.kind = static_cast<Kind7>(r.below(7));
    ts.minimal = r.flag();
    bool refused = false;
    try {
      make_track(ts, 0, &w);
    } catch (const std::exception&) {
      refused = true;
    }
    ctx.count("zero_identifiers");
    ctx.check(w.getMvhdTimescale() == 1000, "default-timescale", [&] { return fmt::format("the movie timescale is {} by default", w.getMvhdTimescale()); });
    ts.timescale = ts.kind == Kind7::OPUS ? 48000 : static_cast<std::uint32_t>(r.edge(32));
    const auto tr = make_track(ts, static_cast<std::uint32_t>(r.range(1, 0xffffffff)), &w);
    ctx.check(tr->getTimescale() == ts.timescale, "timescale", [&] { return fmt::format("a track created with timescale {} reports {}", ts.timescale, tr->getTimescale()); });
    ctx.check(refused, "track-id-zero", [&] { return fmt::format("a {} track with identifier 0 is accepted", kind_name(ts.kind)); });
  }
}

// ---- C14
void c14(Ctx& ctx, Rng& r, std::uint64_t n) {
  using mp4::track::find_next_nal_unit;
  // 1. splitting
  {
    std::vector<Nal> nals;
    const std::size_t k = r.range(1, 12);
    for (std::size_t i = 0; i < k; ++i) nals.push_back({gen_nal(r, static_cast<unsigned>(r.below(32)), r.chance(1, 3) ? r.below(4) : 40), r.flag()});
    const Bytes b = annexb(nals);
    std::size_t at = 0, found = 0;
    std::string error;
    for (const auto& x : nals) {
      try {
        const auto u = find_next_nal_unit(b.data(), b.size(), at);
        const std::size_t code = x.long_code ? 4 : 3;
        if (!ctx.check(u.start == at && u.start_code_size == code && u.end == at + code + x.data.size() && u.header == x.data[0], "nal-unit", [&] {
              return fmt::format("unit {} of {}: start {} code {} end {} header {:#x}, want {} {} {} {:#x} in {}", found + 1, nals.size(), u.start,
                                 u.start_code_size, u.end, u.header, at, code, at + code + x.data.size(), x.data[0], hex(b, 200));
            }))
          return;
        at = u.end;
        ++found;
      } catch (const std::exception& e) {
        error = e.what();
        ctx.check(false, "nal-unit", [&] { return fmt::format("unit {} of {} not found: {} in {}", found + 1, nals.size(), error, hex(b, 200)); });
        return;
      }
    }
    ctx.count("nal_units", found);
    ctx.check(at == b.size(), "nal-end", [&] { return fmt::format("splitting ended at {} of {}", at, b.size()); });
    ctx.seen(hex(b, 60));
  }
  // 2. tracks
  SpecOptions o;
  o.kinds = {Kind7::H264, Kind7::H264, Kind7::OPUS};
  o.max_tracks = 2;
  o.max_size = r.chance(1, 2) ? 6 : 120;
  o.many = n % 60 == 5;
  o.huge_sample = n % 1000 == 77;
  if (n % 50 == 9) o.max_size = 20000;
  Spec s = gen_spec(r, o);
  const Recording rec = record(ctx, s, false);
  if (!rec.ok) return;
  check_samples(ctx, s, rec);
  each_track(s, rec, [&](std::size_t i, const DTrack& t, const ETrack& want) {
    if (s.tracks[i].kind != Kind7::H264) return;
    ctx.count("h264_tracks");
    ctx.count("parameter_sets", want.sps.size() + want.pps.size());
    ctx.check(t.stsd == want.stsd, "configuration", [&] { return "decoder configuration: " + diff_bytes(t.stsd, want.stsd); });
    for (std::size_t k = 0; k < std::min(t.samples.size(), want.samples.size()); ++k)
      ctx.check(t.samples[k].dts == want.samples[k].ts - want.samples[0].ts && t.samples[k].sync == want.samples[k].key, "slice-time", [&] {
        return fmt::format("slice {} of track {} has the wrong time or key flag", k + 1, i);
      });
  });
  // 3. streams that cannot be represented
  {
    Bytes bad;
    std::string kind;
    std::vector<Nal> good;
    for (auto k = r.below(3); k-- > 0;) good.push_back({gen_nal(r, static_cast<unsigned>(r.range(1, 8)), 20), r.flag()});
    switch (r.below(6)) {
      case 0:
        kind = "empty";
        break;
      case 1:
        kind = "no-start-code";
        bad = gen_nal(r, 5, 40);
        while (bad.size() >= 4 && bad[0] == 0) bad[0] = 0x65;
        if (bad[0] == 0) bad[0] = 0x65;
        break;
      case 2:
        kind = "garbage-before";
        bad = annexb({{gen_nal(r, 5, 20), true}});
        bad.insert(bad.begin(), static_cast<std::uint8_t>(r.range(2, 255)));
        break;
      case 3: {
        kind = "unsupported-type";
        static const std::vector<unsigned> types{0, 9, 10, 11, 12, 13, 14, 15, 16, 19, 20, 21, 23, 24, 25, 28, 29, 30, 31};
        good.push_back({gen_nal(r, r.pick(types), 20), r.flag()});
        for (auto k = r.below(2); k-- > 0;) good.push_back({gen_nal(r, 1, 20), r.flag()});
        bad = annexb(good);
        break;
      }
      case 4: {
        kind = "start-code-only";
        bad = annexb(good);
        if (r.flag()) bad.push_back(0);
        bad.insert(bad.end(), {0, 0, 1});
        break;
      }
      default:
        kind = "partial-start-code";
        bad = Bytes(r.range(1, 3), 0);
    }
    MemBuf buf;
    std::ostream os(&buf);
    mp4::writer::SimpleWriter w(os, {.duration = 1.0f});
    w.writeFtypBox();
    mp4::track::H264Track t({.timescale = 90000, .duration = 1.0f, .track_id = w.getAndUpdateNextTrackID(), .width = 16, .height = 16, .writer = &w});
    bool refused = false;
    try {
      t.addData(0, bad.data(), bad.size(), true);
    } catch (const std::exception&) {
      refused = true;
    }
    ctx.count("unrepresentable");
    ctx.count("unrepresentable." + kind);
    ctx.check(refused, "accepted-" + kind, [&] { return "a stream that cannot be represented was accepted: " + hex(bad, 200); });
  }
  // 4. more parameter sets than the configuration can count, and too long ones
  if (n % 16 == 3) {
    const bool sps = r.flag();
    const std::size_t limit = sps ? 31 : 255;
    const std::size_t k = limit + r.below(3);
    const bool longer = r.chance(1, 4);
    MemBuf buf;
    std::ostream os(&buf);
    bool refused = false;
    Bytes file;
    std::set<Bytes> distinct;
    std::vector<Bytes> sets;
    try {
      mp4::writer::SimpleWriter w(os, {.duration = 1.0f});
      w.writeFtypBox();
      mp4::track::H264Track t({.timescale = 90000, .duration = 1.0f, .track_id = w.getAndUpdateNextTrackID(), .width = 16, .height = 16, .writer = &w});
      const std::size_t m = longer ? 1 : k;
      while (sets.size() < m) {
        Bytes b{static_cast<std::uint8_t>(sps ? 0x67 : 0x68)};
        b.resize(longer ? 65536 + r.below(2) : 8, 0x11);
        for (std::size_t x = 1; x < 7; ++x) b[x] = static_cast<std::uint8_t>(r.range(4, 255));
        if (distinct.insert(b).second) sets.push_back(b);
      }
      for (const auto& b : sets) {
        const Bytes d = annexb({{b, r.flag()}, {gen_nal(r, 5, 10), true}});
        t.addData(0, d, true);
      }
      w.appendTrakAndUdtaBoxInfo({&t});
      w.writeFreeBoxAndMdatHeader();
      w.writeMoovBox();
    } catch (const std::exception&) {
      refused = true;
    }
    const bool fits = !longer && k <= limit;
    ctx.count(fits ? "sets_at_limit" : "sets_beyond_limit");
    ctx.check(refused == !fits, fits ? "refused-sets" : "stored-damaged", [&] {
      return fmt::format("{} {} parameter sets of {} bytes were {}", sets.size(), sps ? "sequence" : "picture", sets[0].size(), refused ? "refused" : "accepted");
    });
    if (fits && !refused) {
      file = buf.data;
      const DMovie m = demux(source_of(file));
      Enc e;
      for (const auto& b : sets) e.u16(b.size()).raw(b);
      const auto it = std::search(m.tracks.at(0).stsd.begin(), m.tracks.at(0).stsd.end(), e.b.begin(), e.b.end());
      ctx.check(it != m.tracks.at(0).stsd.end(), "parameter-sets", [&] { return std::string("the parameter sets are not all there in order of appearance"); });
    }
  }
}

// ---- C26
Call refused_call(Rng& r, const Spec& s, std::size_t track, std::uint64_t last, bool any, bool current) {
  Call c;
  c.track = track;
  c.pointer = r.flag();
  c.key = r.flag();
  c.ts = last + (r.flag() ? 0 : r.below(100));
  const bool h264 = s.tracks[track].kind == Kind7::H264;
  c.data = h264 ? annexb({{gen_nal(r, 1, 20), true}}) : r.bytes(r.below(40));
  const auto pick = r.below(s.faststart ? 4 : 5);  // a failure of the intermediate file is final, see below
  if (pick == 4) {
    c.fault = Call::UNWRITTEN;
    if (h264) {
      // some units before, the failing one (a slice), and some after
      for (auto k = current ? r.below(4) : 0; k-- > 0;)
        c.nals.push_back({gen_nal(r, r.chance(1, 3) ? static_cast<unsigned>(r.range(6, 8)) : static_cast<unsigned>(r.range(1, 5)), 30), r.flag()});
      auto all = c.nals;
      all.push_back({gen_nal(r, static_cast<unsigned>(r.range(1, 5)), r.chance(1, 10) ? 9000 : 30), r.flag()});
      for (auto k = r.below(3); k-- > 0;) all.push_back({gen_nal(r, static_cast<unsigned>(r.range(1, 8)), 20), r.flag()});
      c.data = annexb(all);
      c.ts = last;
    } else {
      c.data = r.bytes(r.range(1, r.chance(1, 10) ? 9000 : 60));
    }
  } else if (pick == 0) {
    c.fault = Call::NO_IDENTIFIER;
  } else if (any && (pick == 1 || (!h264 && r.flag()))) {
    c.fault = Call::GAP;
    c.ts = last + 0x100000000ULL + (r.flag() ? r.below(3) : r.edge(40));
  } else if (!h264) {
    c.fault = Call::OVERSIZE;
    c.data.resize(r.chance(1, 3) ? 0 : r.below(5000));
  } else {
    c.fault = Call::MALFORMED;
    c.ts = last;
    c.data.clear();
    if (current && r.flag())
      for (auto k = r.range(1, 3); k-- > 0;) {
        const unsigned type = r.chance(1, 3) ? static_cast<unsigned>(r.range(6, 8)) : static_cast<unsigned>(r.range(1, 5));
        c.nals.push_back({gen_nal(r, type, 30), r.flag()});
      }
    Bytes tail;
    switch (r.below(3)) {
      case 0:
        tail = {0, 0, 1};
        if (r.flag()) tail.insert(tail.begin(), 0);
        c.data = annexb(c.nals);
        c.data.insert(c.data.end(), tail.begin(), tail.end());
        break;
      case 1: {
        static const std::vector<unsigned> types{0, 9, 10, 11, 12, 13, 14, 15, 16, 19, 20, 21, 23, 24, 25, 28, 29, 30, 31};
        auto all = c.nals;
        all.push_back({gen_nal(r, r.pick(types), 20), r.flag()});
        for (auto k = r.below(3); k-- > 0;) all.push_back({gen_nal(r, static_cast<unsigned>(r.range(1, 8)), 20), r.flag()});
        c.data = annexb(all);
        break;
      }
      default:
        c.nals.clear();
        if (r.chance(1, 3)) c.data = Bytes(r.below(4), 0);
        else {
          c.data = annexb({{gen_nal(r, 5, 20), true}});
          c.data.insert(c.data.begin(), static_cast<std::uint8_t>(r.range(2, 255)));
        }
    }
  }
  return c;
}

void c26(Ctx& ctx, Rng& r, std::uint64_t n) {
  SpecOptions o = pick_options(r, n);
  o.crowd = o.big_data = o.huge_sample = false;
  o.long_run = 0;
  Spec s = gen_spec(r, o);
  s.late = false;
  Spec calm = s;  // without what is refused
  std::vector<Call> with, without;
  std::vector<std::uint64_t> last(s.tracks.size(), 0);
  std::vector<bool> any(s.tracks.size(), false);
  std::optional<std::size_t> current;  // the track whose chunk is open
  std::size_t refused = 0;
  std::string kinds;
  const auto add = [&](const Call& c) {
    with.push_back(c);
    if (c.fault == Call::GOOD) {
      without.push_back(c);
    } else {
      ++refused;
      static const char* names[] = {"", "gap", "oversize", "malformed", "no_identifier", "unwritten"};
      ctx.count(std::string("refused.") + names[c.fault]);
      kinds += names[c.fault][0];
      if (!c.nals.empty()) {
        Call front = c;
        front.fault = Call::GOOD;
        front.data = annexb(c.nals);
        without.push_back(front);
        ctx.count("refused_in_the_middle");
      }
    }
    for (const auto& u : c.nals) any[c.track] = any[c.track] || ((u.data[0] & 31) >= 1 && (u.data[0] & 31) <= 5);
    if (c.fault == Call::GOOD && !c.terminate && s.tracks[c.track].kind != Kind7::H264) any[c.track] = true;
  };
  for (std::size_t i = 0; i <= s.calls.size(); ++i) {
    while (refused < 60 && !s.tracks.empty() && r.chance(1, i % 7 == 0 ? 2 : 6)) {
      const std::size_t t = r.below(s.tracks.size());
      add(refused_call(r, s, t, last[t], any[t], current == t));
    }
    if (i == s.calls.size()) break;
    const Call& c = s.calls[i];
    add(c);
    if (c.terminate) {
      current.reset();
    } else {
      last[c.track] = c.ts;
      current = c.track;
    }
  }
  if (!refused) return;
  s.calls = with;
  calm.calls = without;
  ctx.count("refused_calls", refused);
  Recording a = record(ctx, s, false), b = record(ctx, calm, false);
  ctx.seen(kinds + " " + summary(s));
  if (n < 3) ctx.sample(fmt::format("{} refused calls ({}) within {}", refused, kinds, summary(calm)));
  if (!a.ok || !b.ok) return;
  ctx.check(a.res.accepted.empty(), "accepted", [&] {
    const Call& c = s.calls[a.res.accepted[0]];
    return fmt::format("call {} (fault {}, track {}, timestamp {}, {}) was accepted | {}", a.res.accepted[0], static_cast<int>(c.fault), c.track, c.ts,
                       hex(c.data, 100), summary(s));
  });
  if (!a.res.accepted.empty()) return;
  check_samples(ctx, s, a);
  ctx.check(a.res.ids == b.res.ids && a.res.next_id == b.res.next_id, "identifiers", [&] { return "refused calls used up identifiers | " + summary(s); });
  const Bytes x = normalised(a.file, a.m), y = normalised(b.file, b.m);
  ctx.check(x == y, "trace-left", [&] {
    return fmt::format("{} refused calls ({}) changed the recording: {} | {}", refused, kinds, diff_bytes(x, y), summary(calm));
  });
  ctx.count("compared");
  if (!s.faststart || s.tracks.empty() || n % 4) return;
  // a sample missing in the intermediate file, or half of it: either the recording cannot be finished, or nothing shows
  Spec torn = calm;
  const std::size_t t = r.below(s.tracks.size());
  Call c;
  c.track = t;
  c.fault = Call::UNWRITTEN;
  c.half = r.chance(2, 3);
  c.pointer = r.flag();
  const auto at = r.below(torn.calls.size() + 1);
  for (std::size_t i = 0; i < at; ++i)
    if (torn.calls[i].track == t && !torn.calls[i].terminate) c.ts = torn.calls[i].ts;
  c.data = s.tracks[t].kind == Kind7::H264 ? annexb({{gen_nal(r, 5, 60), true}}) : r.bytes(r.range(2, 9000));
  torn.calls.insert(torn.calls.begin() + static_cast<long>(at), c);
  torn.path_template = s.path_template;
  const auto fired = write_fault.fired;
  MemBuf out;
  bool threw = false;
  std::string path;
  Result res;
  try {
    std::ostream os(&out);
    res = execute(torn, os, [&](const char*, mp4::writer::Writer* w) {
      if (path.empty())
        if (auto* fw = dynamic_cast<mp4::writer::FaststartWriter*>(w)) path = fw->getIntermediateFilePath().string();
    });
  } catch (const std::exception&) {
    threw = true;
  }
  ::unlink(path.c_str());
  if (write_fault.fired == fired) return;
  ctx.count("torn");
  if (threw) ctx.count("torn_reported");
  ctx.check(threw || (res.accepted.empty() && normalised(out.data, b.m) == y), "torn", [&] {
    return fmt::format("{} of a sample of {} bytes was written at call {}, and the recording was finished all the same | {}", c.half ? "half" : "nothing", c.data.size(), at, summary(calm));
  });
}

// ---- C20
Bytes no_places(const Bytes& file, const DMovie& m) {
  // the movie box with times and chunk offsets blanked
  Bytes b = normalised(file, m);
  for (const auto& k : m.moov.kids)
    if (k.type == "trak")
      for (const char* name : {"mdia/minf/stbl/stco", "mdia/minf/stbl/co64"})
        if (const DBox* t = k.find(name)) std::fill(b.begin() + static_cast<long>(t->data() + 8), b.begin() + static_cast<long>(t->end()), std::uint8_t{0});
  return Bytes(b.begin() + static_cast<long>(m.moov.data()), b.begin() + static_cast<long>(m.moov.end()));
}

void c20(Ctx& ctx, Rng& r, std::uint64_t n) {
  SpecOptions o = pick_options(r, n);
  Spec s = gen_spec(r, o);
  ctx.seen(summary(s));
  if (n < 3) ctx.sample(summary(s));
  Spec f = s;
  s.faststart = false;
  f.faststart = true;
  Recording a = record(ctx, s, false);
  Recording b = record(ctx, f, false);
  if (!a.ok || !b.ok) return;
  // both writers
  const Bytes ma = no_places(a.file, a.m), mb = no_places(b.file, b.m);
  ctx.check(ma == mb, "writers-differ", [&] { return "the movie boxes of both writers differ: " + diff_bytes(mb, ma) + " | " + summary(s); });
  const auto media = [](const Recording& x) {
    return Bytes(x.file.begin() + static_cast<long>(x.m.mdat.data()), x.file.begin() + static_cast<long>(x.m.mdat.end()));
  };
  ctx.check(media(a) == media(b), "media-differs", [&] { return "the media data of both writers differs | " + summary(s); });
  for (std::size_t i = 0; i < a.m.tracks.size(); ++i) {
    bool same = a.m.tracks[i].samples.size() == b.m.tracks[i].samples.size();
    for (std::size_t k = 0; same && k < a.m.tracks[i].samples.size(); ++k) {
      const auto &x = a.m.tracks[i].samples[k], &y = b.m.tracks[i].samples[k];
      same = x.size == y.size && x.dts == y.dts && x.duration == y.duration && x.sync == y.sync && x.chunk == y.chunk &&
             x.offset - a.m.mdat.data() == y.offset - b.m.mdat.data();
    }
    ctx.check(same, "samples-differ", [&] { return fmt::format("track {}: samples differ between the writers | {}", i, summary(s)); });
  }
  ctx.count("pairs");
  // repetition, after other work
  {
    Rng other(r.next());
    const auto kept = ctx.failures.size();
    Spec x = gen_spec(other, o);
    record(ctx, x, false);
    if (ctx.failures.size() != kept) return;
    ctx.count("work_between");
  }
  for (Spec* p : {&s, &f}) {
    Recording again = record(ctx, *p, r.chance(1, 4));
    if (!again.ok) continue;
    const Recording& first = p == &s ? a : b;
    const Bytes x = normalised(first.file, first.m), y = normalised(again.file, again.m);
    ctx.check(x == y, "not-repeatable", [&] { return std::string("the repeated recording differs: ") + diff_bytes(y, x) + " | " + summary(*p); });
    ctx.count("repetitions");
  }
  if (n % 4 == 0) {
    const Dump d1 = read_and_dump(a.file), d2 = read_and_dump(a.file);
    ctx.check(d1.ok && d2.ok && d1.text == d2.text, "dump", [&] { return "the dumps of a recording differ, or it is not accepted: " + d1.error + " | " + summary(s); });
    ctx.count("dumps");
  }
}

Register r09("C09", c09), r10("C10", c10), r11("C11", c11), r12("C12", c12), r13("C13", c13), r14("C14", c14), r20("C20", c20), r26("C26", c26);

}  // namespace
}  // namespace vh
