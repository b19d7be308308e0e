// C28 time, memory and output of making a recording.
#include <fmt/format.h>
#include <sys/stat.h>

#include <algorithm>
#include <memory>
#include <ostream>

#include "alloc.hpp"
#include "scenario.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"

namespace vh {
namespace {

// keeps nothing
class Sink : public std::streambuf {
 public:
  std::uint64_t ops = 0, bytes = 0, end = 0, pos = 0;

 protected:
  std::streamsize xsputn(const char*, std::streamsize n) override {
    ++ops;
    add(static_cast<std::uint64_t>(n));
    return n;
  }
  int_type overflow(int_type c) override {
    ++ops;
    add(1);
    return traits_type::not_eof(c);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    ++ops;
    const off_type base = d == std::ios_base::beg ? 0 : static_cast<off_type>(d == std::ios_base::cur ? pos : end);
    if (base + o < 0) return pos_type(off_type(-1));
    pos = static_cast<std::uint64_t>(base + o);
    return pos_type(base + o);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

 private:
  void add(std::uint64_t n) {
    bytes += n;
    pos += n;
    end = std::max(end, pos);
  }
};

struct Plan {
  bool fast = false;
  std::vector<Kind7> kinds;
  std::size_t samples = 100;   // in all
  std::size_t size = 100;      // of a sample; H.264: of a unit
  std::size_t units = 1;       // coded slices in one H.264 access unit
  std::size_t chunk = 10;      // samples in a chunk
  unsigned gaps = 1;           // different durations
  unsigned keys = 1;           // one sample of so many is a key frame
  bool pointer = false;
  bool sets = false;           // parameter sets before every H.264 access unit
  std::string text() const {
    std::string k;
    for (std::size_t i = 0; i < kinds.size() && i < 6; ++i) k += (i ? "+" : "") + std::string(kind_name(kinds[i]));
    return fmt::format("{} [{}{}] {} samples of {} bytes, {} units, chunks of {}, {} durations, every {}th a key frame{}", fast ? "faststart" : "simple", k,
                       kinds.size() > 6 ? fmt::format(" .. {} tracks", kinds.size()) : "", samples, size, units, chunk, gaps, keys, sets ? ", parameter sets repeated" : "");
  }
};

struct Cost {
  std::uint64_t samples = 0, bytes = 0, largest = 0, chunks = 0;
  std::uint64_t add_peak = 0, add_total = 0, add_ns = 0, add_ops = 0, add_out = 0;
  std::uint64_t end_peak = 0, end_total = 0, end_ns = 0, end_ops = 0, end_out = 0;
  std::uint64_t file = 0, kept = 0;
  std::string error;
};

void slice(Bytes& b, unsigned header, std::size_t n, bool long_code) {
  if (long_code) b.push_back(0);
  b.insert(b.end(), {0, 0, 1, static_cast<std::uint8_t>(header)});
  for (std::size_t i = 1; i < n; ++i) b.push_back(static_cast<std::uint8_t>(1 + i % 255));
}

Cost make(Ctx& ctx, const Plan& p) {
  Cost c;
  Sink sink;
  // what is added
  const Bytes plain(p.size, 0x5a);
  Bytes first, unit;
  slice(first, 0x67, 12, true);
  slice(first, 0x68, 6, true);
  slice(first, 0x65, p.size, true);
  if (p.sets) unit.assign(first.begin(), first.begin() + 4 + 12 + 4 + 6);
  for (std::size_t i = 0; i < p.units; ++i) slice(unit, 0x41, p.size, i % 2 == 0);
  const std::string path = ctx.scratch + "/mdatXXXXXX";
  std::vector<std::uint64_t> ts(p.kinds.size(), 0), of(p.kinds.size(), 0);
  std::vector<mp4::track::Track*> order(p.kinds.size());
  std::vector<std::unique_ptr<mp4::track::Track>> tracks(p.kinds.size());
  const std::uint64_t live = g_live;
  try {
    std::ostream os(&sink);
    std::unique_ptr<mp4::writer::Writer> w;
    mp4::writer::SimpleWriter* simple = nullptr;
    mp4::writer::FaststartWriter* fast = nullptr;
    const float duration = 10;
    if (p.fast) w.reset(fast = new mp4::writer::FaststartWriter(os, {.mvhd_timescale = 1000, .duration = duration, .mdat_path_templete = path}));
    else w.reset(simple = new mp4::writer::SimpleWriter(os, {.mvhd_timescale = 1000, .duration = duration}));
    w->writeFtypBox();
    for (std::size_t i = 0; i < p.kinds.size(); ++i) {
      TrackSpec t;
      t.kind = p.kinds[i];
      t.timescale = is_video(t.kind) ? 90000 : 48000;
      tracks[i] = make_track(t, w->getAndUpdateNextTrackID(), w.get());
      order[i] = tracks[i].get();
    }
    const std::uint64_t total = g_total, ops = sink.ops, out = sink.bytes;
    g_peak = g_live;
    std::uint64_t start = cpu_ns();
    std::size_t at = 0;
    for (std::size_t k = 0; k < p.samples;) {
      mp4::track::Track& t = *tracks[at];
      std::size_t added = 1;
      const bool key = of[at] % p.keys == 0;
      const Bytes* d = &plain;
      if (p.kinds[at] == Kind7::H264) {
        d = of[at] == 0 ? &first : &unit;
        added = of[at] == 0 ? 1 : p.units;
      }
      if (p.pointer) t.addData(ts[at], d->data(), d->size(), key);
      else t.addData(ts[at], *d, key);
      c.bytes += d->size();
      c.largest = std::max<std::uint64_t>(c.largest, d->size());
      ts[at] += 20 + of[at] % p.gaps;
      ++of[at];
      const bool over = (k + added) / p.chunk != k / p.chunk;
      k += added;
      c.samples += added;
      if (over) {
        t.terminateCurrentChunk();
        ++c.chunks;
        at = (at + 1) % p.kinds.size();
      }
    }
    for (auto* t : order) t->terminateCurrentChunk();
    c.chunks += p.kinds.size();
    c.add_ns = cpu_ns() - start;
    c.add_peak = g_peak - live;
    c.add_total = g_total - total;
    c.add_ops = sink.ops - ops;
    c.add_out = sink.bytes - out;
    g_peak = g_live;
    const std::uint64_t total2 = g_total, ops2 = sink.ops, out2 = sink.bytes;
    start = cpu_ns();
    w->appendTrakAndUdtaBoxInfo(order);
    if (fast) {
      w->writeMoovBox();
      fast->writeMdatHeader();
      fast->copyMdatData();
    } else {
      simple->writeFreeBoxAndMdatHeader();
      w->writeMoovBox();
    }
    tracks.clear();
    w.reset();
    c.end_ns = cpu_ns() - start;
    c.end_peak = g_peak - live;
    c.end_total = g_total - total2;
    c.end_ops = sink.ops - ops2;
    c.end_out = sink.bytes - out2;
    c.file = sink.end;
  } catch (const std::exception& e) {
    c.error = e.what();
  }
  c.kept = g_live - std::min(g_live, live);
  return c;
}

// bytes and operations the recording may cost; generous multiples of what is needed (see DESIGN.md)
struct Limit {
  const char* what;
  std::uint64_t got, most;
};

void judge(Ctx& ctx, const Plan& p, const Cost& c) {
  const std::uint64_t n = c.samples, k = c.chunks, t = p.kinds.size();
  const std::uint64_t index = 800 * n + 800 * k + 131072 * t + 524288;
  const std::uint64_t media = c.bytes + 8 * n;
  const Limit limits[] = {
      {"add-memory", c.add_peak, 100 * n + 100 * k + 16384 * t + 3 * c.largest + 65536},
      {"add-work", c.add_total, 8 * media + 800 * n + 400 * k + 16384 * t + 65536},
      {"add-time", c.add_ns, 200 * media + 200000 * (n + k) + 1000000 * t + 500000000},
      {"add-operations", c.add_ops, 16 * n + 64},
      {"add-output", c.add_out, (p.fast ? 0 : media) + 64},
      {"end-memory", c.end_peak, index},
      {"end-work", c.end_total, 8 * index},
      {"end-time", c.end_ns, 200 * media + 200000 * (n + k) + 50000000 * t + 500000000},
      {"end-operations", c.end_ops, 40 * n + 20 * k + 8000 * t + 4000 + (p.fast ? media / 512 : 0)},
      {"end-output", c.end_out, 40 * n + 20 * k + 4000 * t + 4000 + (p.fast ? media : 0)},
  };
  for (const auto& l : limits) {
    ctx.maxi(std::string(l.what) + "_permille_of_bound", l.got * 1000 / l.most);
    ctx.check(l.got <= l.most, l.what, [&] { return fmt::format("{}: {} is {}, bound {}", p.text(), l.what, l.got, l.most); });
  }
  ctx.count("recordings");
  ctx.count(p.fast ? "faststart" : "simple");
  ctx.count("samples", n);
  ctx.maxi("samples_of_a_recording", n);
  ctx.maxi("media_bytes", c.bytes);
  ctx.maxi("tracks", t);
  ctx.maxi("chunks", k);
}

const std::vector<Kind7> kAll{Kind7::AAC, Kind7::MP3, Kind7::OPUS, Kind7::AV1, Kind7::VP8, Kind7::VP9, Kind7::H264};

// eight times as much of one thing takes about eight times as long
void growth(Ctx& ctx, Rng& r, std::uint64_t n) {
  Plan p;
  p.fast = n % 2;
  p.kinds = {kAll[n / 2 % 7]};
  const unsigned what = static_cast<unsigned>(n / 2 % 7);
  const auto scaled = [&](std::size_t f) {
    Plan q = p;
    switch (what) {
      case 0: q.kinds = {Kind7::VP9}; q.samples = 30000 * f; q.size = 4; q.chunk = 1 << 30; return std::make_pair(q, "samples");
      case 1: q.samples = 20000 * f; q.size = 4; q.chunk = 1; q.gaps = 2; return std::make_pair(q, "chunks and durations");
      case 2:
        q.kinds.clear();
        for (std::size_t i = 0; i < 500 * f; ++i) q.kinds.push_back(kAll[i % 7]);
        q.samples = 1000 * f; q.chunk = 1; q.size = 4;
        return std::make_pair(q, "tracks");
      case 3: q.samples = 30; q.size = 100000 * f; return std::make_pair(q, "bytes of a sample");
      case 4: q.kinds = {Kind7::H264}; q.samples = 3000 * f; q.units = 1000 * f; q.size = 30; return std::make_pair(q, "units of an access unit");
      case 5: q.kinds = {Kind7::H264}; q.samples = 20; q.size = 100000 * f; return std::make_pair(q, "bytes of a unit");
      default: q.samples = 20000 * f; q.size = 40; q.chunk = 7; q.keys = 2; q.gaps = 3; q.kinds = {Kind7::OPUS, Kind7::H264}; return std::make_pair(q, "samples of two tracks");
    }
  };
  const auto small = scaled(1), large = scaled(8);
  const auto time = [&](const Plan& q, int times) {
    std::uint64_t best = ~0ULL;
    for (int i = 0; i < times; ++i) {
      const Cost c = make(ctx, q);
      ctx.check(c.error.empty(), "refused", [&] { return q.text() + ": " + c.error; });
      if (i == 0) judge(ctx, q, c);
      best = std::min(best, c.add_ns + c.end_ns);
    }
    return best;
  };
  const std::uint64_t t1 = time(small.first, 3), most = 28 * t1 + 200000000;
  std::uint64_t t2 = time(large.first, 1);
  if (t2 > most) t2 = std::min(t2, time(large.first, 2));
  ctx.count(std::string("growth.") + (what == 2 ? "tracks" : what == 4 ? "units" : what == 1 ? "chunks" : what == 3 || what == 5 ? "bytes" : "samples"));
  ctx.maxi("growth_permille_of_bound", t2 * 1000 / most);
  ctx.seen(large.first.text());
  ctx.sample(fmt::format("{}: {} us, {}: {} us", small.first.text(), t1 / 1000, large.first.text(), t2 / 1000));
  ctx.check(t2 <= most, "growth", [&] {
    return fmt::format("eight times the {} take {} us instead of {} us: {}", small.second, t2 / 1000, t1 / 1000, large.first.text());
  });
  (void)r;
}

void c28(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (n < 14 || (ctx.tier != "quick" && n < 140)) return growth(ctx, r, n);
  Plan p;
  p.fast = r.flag();
  const std::size_t tracks = r.chance(1, 20) ? r.range(20, 200) : r.range(1, 4);
  for (std::size_t i = 0; i < tracks; ++i) p.kinds.push_back(r.pick(kAll));
  const std::uint64_t bytes = r.chance(1, 4) ? r.range(1000000, 16000000) : r.range(1000, 500000);
  p.size = r.chance(1, 3) ? r.range(1, 20) : r.chance(1, 2) ? r.range(20, 2000) : r.range(2000, 2000000);
  p.samples = std::clamp<std::uint64_t>(bytes / p.size, 1, 100000);
  p.units = r.chance(1, 2) ? 1 : r.range(1, std::min<std::uint64_t>(50, 1 + 4000000 / p.size));
  p.chunk = r.chance(1, 3) ? 1 : r.chance(1, 2) ? r.range(2, 100) : r.range(100, 1000000);
  p.gaps = r.chance(1, 2) ? 1 : static_cast<unsigned>(r.range(2, 50));
  p.keys = r.chance(1, 2) ? 1 : static_cast<unsigned>(r.range(2, 300));
  p.pointer = r.flag();
  p.sets = r.chance(1, 4);
  ctx.seen(p.text());
  const Cost c = make(ctx, p);
  if (n < 20) ctx.sample(fmt::format("{}: at most {} bytes held while adding, {} at the end; {} output operations", p.text(), c.add_peak, c.end_peak, c.add_ops + c.end_ops));
  ctx.check(c.error.empty(), "refused", [&] { return p.text() + ": " + c.error; });
  if (c.error.empty()) judge(ctx, p, c);
}

Register r28("C28", c28);
}  // namespace
}  // namespace vh
