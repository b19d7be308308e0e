// C15 recordings beyond 4 GiB. The samples are slices of a huge mapping that is zero except for marks, so that neither the
// output nor the intermediate file needs the space.
#include <fmt/format.h>
#include <stdio.h>
#include <sys/mman.h>

#include <algorithm>
#include <set>

#include "scenario.hpp"
#include "sparse.hpp"

// big writes of zeros become holes in the intermediate file
extern "C" std::size_t __real_fwrite(const void* p, std::size_t size, std::size_t n, FILE* f);
extern "C" std::size_t __wrap_fwrite(const void* p, std::size_t size, std::size_t n, FILE* f) {
  constexpr std::size_t kBlock = 1 << 16;
  if (size != 1 || n < 4 * kBlock) return __real_fwrite(p, size, n, f);
  const char* c = static_cast<const char*>(p);
  std::size_t at = 0, skip = 0;
  while (at < n) {
    const std::size_t k = std::min(kBlock, n - at);
    if (at + k < n && vh::SparseBuf::zero(c + at, k)) {
      skip += k;
    } else {
      if (skip && ::fseeko(f, static_cast<off_t>(skip), SEEK_CUR) != 0) return 0;
      skip = 0;
      if (__real_fwrite(c + at, 1, k, f) != k) return at;
    }
    at += k;
  }
  return n;
}

namespace vh {
namespace {
constexpr std::uint64_t k4G = 1ULL << 32;
constexpr std::uint64_t kRegion = 16ULL << 30;

std::uint8_t* region() {
  static std::uint8_t* p = [] {
    void* q = ::mmap(nullptr, kRegion, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED) throw std::runtime_error("mapping the sample region failed");
    return static_cast<std::uint8_t*>(q);
  }();
  return p;
}

struct Add {
  std::size_t track;
  std::uint64_t at, size;  // slice of the region
  std::uint64_t ts;
  bool key, end_chunk;  // the chunk ends after this sample
};

struct Plan {
  Spec spec;
  std::vector<Add> adds;
  std::vector<std::uint64_t> marks;  // places in the region that are not zero
};

// lays the samples out in the region, with marks at their ends and somewhere between
void place(Rng& r, Plan& p) {
  p.marks.clear();
  std::uint64_t at = 0;
  for (auto& a : p.adds) {
    at = (at + 4095) / 4096 * 4096 + r.below(100);
    a.at = at;
    if (at + a.size > kRegion) throw std::logic_error("the plan does not fit the region");
    const auto mark = [&](std::uint64_t m) {
      for (std::uint64_t i = m; i < m + 16 && i < at + a.size; ++i) region()[i] = static_cast<std::uint8_t>(1 + r.below(255));
      p.marks.push_back(m);
    };
    if (a.size) {
      mark(at);
      mark(at + a.size - std::min<std::uint64_t>(a.size, 16));
    }
    for (std::uint64_t i = std::min<std::uint64_t>(6, a.size >> 20); i-- > 0;) mark(at + r.below(a.size));
    at += a.size;
  }
}

void clear(const Plan& p) {
  for (const auto& a : p.adds) {
    const std::uint64_t from = a.at / 4096 * 4096, to = (a.at + a.size + 4095) / 4096 * 4096;
    ::madvise(region() + from, to - from, MADV_DONTNEED);
  }
}

struct Out {
  bool ok = false;
  std::string error;
  DMovie m;
};

Out run(const Plan& p, SparseBuf& buf) {
  Out o;
  std::ostream os(&buf);
  const Spec& s = p.spec;
  try {
    std::unique_ptr<mp4::writer::Writer> w;
    mp4::writer::SimpleWriter* simple = nullptr;
    mp4::writer::FaststartWriter* fast = nullptr;
    if (s.faststart)
      w.reset(fast = new mp4::writer::FaststartWriter(os, {.mvhd_timescale = s.mvhd_timescale, .duration = s.duration, .mdat_path_templete = s.path_template}));
    else
      w.reset(simple = new mp4::writer::SimpleWriter(os, {.mvhd_timescale = s.mvhd_timescale, .duration = s.duration}));
    struct Gone {
      mp4::writer::FaststartWriter* f;
      ~Gone() {
        if (f) ::unlink(f->getIntermediateFilePath().c_str());
      }
    } gone{fast};
    w->writeFtypBox();
    std::vector<std::unique_ptr<mp4::track::Track>> tracks;
    std::vector<mp4::track::Track*> order;
    for (const auto& t : s.tracks) {
      tracks.push_back(make_track(t, w->getAndUpdateNextTrackID(), w.get()));
      order.push_back(tracks.back().get());
    }
    for (const auto& a : p.adds) {
      tracks[a.track]->addData(a.ts, region() + a.at, a.size, a.key);
      if (a.end_chunk) tracks[a.track]->terminateCurrentChunk();
    }
    w->appendTrakAndUdtaBoxInfo(order);
    if (fast) {
      w->writeMoovBox();
      fast->writeMdatHeader();
      fast->copyMdatData();
      gone.f = nullptr;
    } else {
      simple->writeFreeBoxAndMdatHeader();
      w->writeMoovBox();
    }
    os.flush();
  } catch (const std::exception& e) {
    o.error = std::string("the recording was refused: ") + e.what();
    return o;
  }
  try {
    o.m = demux(Source{buf.end, [&](std::uint64_t at, std::uint64_t n) { return buf.get(at, n); }});
    o.ok = true;
  } catch (const std::exception& e) {
    o.error = std::string("the recording is not a well-formed file: ") + e.what();
  }
  return o;
}

std::string describe(const Plan& p) {
  std::string s = fmt::format("{} tracks={}", p.spec.faststart ? "faststart" : "simple", p.spec.tracks.size());
  std::uint64_t sum = 0;
  for (const auto& a : p.adds) sum += a.size;
  s += fmt::format(" media={} (2^32{:+}):", sum, static_cast<std::int64_t>(sum - k4G));
  for (std::size_t i = 0; i < p.adds.size() && i < 24; ++i)
    s += fmt::format(" {}:{}{}", p.adds[i].track, p.adds[i].size, p.adds[i].end_chunk ? "|" : "");
  return s;
}

// bytes [at, at+n) of the output equal the slice
bool same(const SparseBuf& buf, const Plan& p, const Add& a, std::uint64_t off) {
  // every page the output has
  for (auto it = buf.pages.lower_bound(off / SparseBuf::kPage); it != buf.pages.end() && it->first * SparseBuf::kPage < off + a.size; ++it) {
    const std::uint64_t from = std::max(off, it->first * SparseBuf::kPage), to = std::min(off + a.size, (it->first + 1) * SparseBuf::kPage);
    if (!std::equal(region() + a.at + (from - off), region() + a.at + (to - off), it->second.begin() + static_cast<long>(from % SparseBuf::kPage))) return false;
  }
  // every place where the sample is not zero
  for (auto m : p.marks) {
    if (m < a.at || m >= a.at + a.size) continue;
    const std::uint64_t n = std::min<std::uint64_t>(16, a.at + a.size - m);
    const Bytes b = buf.get(off + (m - a.at), n);
    if (!std::equal(b.begin(), b.end(), region() + m)) return false;
  }
  return true;
}

void verify(Ctx& ctx, const Plan& p, const SparseBuf& buf, const Out& o) {
  const std::string d = describe(p);
  if (!ctx.check(o.ok, "recording", [&] { return o.error + " | " + d; })) return;
  const DMovie& m = o.m;
  if (!ctx.check(m.tracks.size() == p.spec.tracks.size(), "track-count", [&] { return "tracks missing | " + d; })) return;
  std::uint64_t sum = 0;
  std::vector<std::size_t> next(p.spec.tracks.size());
  std::vector<std::pair<std::uint64_t, std::uint64_t>> spans;
  for (const auto& a : p.adds) {
    sum += a.size;
    const auto& t = m.tracks[a.track];
    const std::size_t k = next[a.track]++;
    if (!ctx.check(k < t.samples.size(), "sample-count", [&] { return fmt::format("track {} has only {} samples | {}", a.track, t.samples.size(), d); })) return;
    const auto& x = t.samples[k];
    ctx.check(x.size == a.size, "sample-size", [&] { return fmt::format("sample {} of track {} is recorded with {} bytes, added with {} | {}", k + 1, a.track, x.size, a.size, d); });
    ctx.check(x.offset >= m.mdat.data() && x.offset + x.size <= m.mdat.end(), "sample-outside", [&] {
      return fmt::format("sample {} of track {} lies at {} outside the media data {}..{} | {}", k + 1, a.track, x.offset, m.mdat.data(), m.mdat.end(), d);
    });
    ctx.check(x.size != a.size || same(buf, p, a, x.offset), "sample", [&] { return fmt::format("sample {} of track {} at {} differs | {}", k + 1, a.track, x.offset, d); });
    if (a.size) spans.push_back({x.offset, x.offset + x.size});
    ctx.count("samples");
    if (x.offset >= k4G) ctx.count("samples_beyond_4g");
  }
  std::sort(spans.begin(), spans.end());
  std::uint64_t at = m.mdat.data();
  bool good = true;
  for (const auto& [x, y] : spans) {
    good = good && x == at;
    at = y;
  }
  ctx.check(good && at == m.mdat.end(), "coverage", [&] { return "the samples do not account for the media data exactly once | " + d; });
  ctx.check(m.mdat.size - m.mdat.header == sum, "media-size", [&] { return fmt::format("the media data is declared with {} bytes, {} were added | {}", m.mdat.size - m.mdat.header, sum, d); });
  const bool large = sum + 8 > 0xffffffffULL;
  ctx.check((m.mdat.header == 16) == large, "media-header", [&] { return fmt::format("media data of {} bytes has a header of {} bytes | {}", sum, m.mdat.header, d); });
  ctx.count(large ? "header_64" : "header_32");
  for (std::size_t i = 0; i < m.tracks.size(); ++i) {
    const auto& t = m.tracks[i];
    const bool far = std::any_of(t.chunk_offsets.begin(), t.chunk_offsets.end(), [](auto v) { return v > 0xffffffffULL; });
    ctx.check(t.co64 == far, "offset-table", [&] {
      return fmt::format("track {}: last chunk at {} in the {}-bit table | {}", i, t.chunk_offsets.empty() ? 0 : t.chunk_offsets.back(), t.co64 ? 64 : 32, d);
    });
    ctx.count(t.co64 ? "offsets_64" : "offsets_32");
    if (!t.chunk_offsets.empty() && t.chunk_offsets.back() >= k4G - 64 && t.chunk_offsets.back() < k4G) ctx.count("chunk_just_below");
    if (!t.chunk_offsets.empty() && t.chunk_offsets.back() >= k4G && t.chunk_offsets.back() < k4G + 64) ctx.count("chunk_just_beyond");
  }
  const std::uint64_t lim = k4G - 8;
  if (sum < lim && sum + 4 >= lim) ctx.count("media_just_below");
  if (sum >= lim && sum < lim + 4) ctx.count("media_just_beyond");
  ctx.maxi("media_bytes", sum);
  ctx.count("recordings");
  ctx.count(p.spec.faststart ? "faststart" : "simple");
  ctx.maxi("output_pages", buf.pages.size());
}

// the sample whose size is adjusted is a large one
std::size_t filler(const Plan& p) {
  std::size_t k = 0;
  for (std::size_t i = 0; i < p.adds.size(); ++i)
    if (p.adds[i].size > p.adds[k].size) k = i;
  return k;
}

Plan make_plan(Rng& r, Ctx& ctx, bool faststart) {
  Plan p;
  SpecOptions o;
  o.kinds = {Kind7::AAC, Kind7::MP3, Kind7::OPUS, Kind7::AV1, Kind7::VP8, Kind7::VP9};
  o.max_tracks = 3;
  o.max_samples = 3;
  do p.spec = gen_spec(r, o);
  while (p.spec.tracks.empty());
  p.spec.faststart = faststart;
  p.spec.path_template = ctx.scratch + "/mdatXXXXXX";
  const std::size_t n = r.range(p.spec.tracks.size() + 1, 14);
  std::size_t track = r.below(p.spec.tracks.size());
  std::vector<std::uint64_t> ts(p.spec.tracks.size());
  for (std::size_t i = 0; i < n; ++i) {
    Add a{};
    a.track = track;
    a.size = r.chance(1, 8) ? 0 : r.range(1, 3000);
    a.ts = ts[track];
    ts[track] += r.below(3000);
    a.key = r.flag();
    a.end_chunk = r.chance(1, 2) || i + 1 == n;
    if (a.end_chunk) track = r.below(p.spec.tracks.size());
    p.adds.push_back(a);
  }
  return p;
}

// A recording around a power of two of bytes far beyond 4 GiB, every large sample the same slice of the region.
void vast(Ctx& ctx, Rng& r, std::uint64_t n) {
  Plan p = make_plan(r, ctx, false);
  const std::uint64_t limit = 1ULL << (n % 3 == 0 ? 40 : r.range(34, 41));
  std::vector<Add> adds;
  std::vector<std::uint64_t> ts(p.spec.tracks.size());
  std::uint64_t sum = 0;
  Add huge{};
  huge.size = 0xffffffffULL - r.below(3);
  std::size_t track = 0;
  while (sum < limit + 3 * k4G) {
    Add a = huge;
    // small ones now and then, and around the limit
    if (r.chance(1, 6) || (sum < limit && limit - sum < k4G)) a.size = r.chance(1, 2) || limit < sum || limit - sum >= k4G ? r.range(1, 3000) : limit - sum - std::min<std::uint64_t>(limit - sum - 1, r.below(100));
    a.track = track;
    a.ts = ts[track];
    ts[track] += r.below(3000);
    a.key = r.flag();
    a.end_chunk = r.chance(1, 2);
    if (a.end_chunk) track = r.below(p.spec.tracks.size());
    sum += a.size;
    adds.push_back(a);
  }
  // one slice of the region for all large samples, the small ones behind it
  for (std::uint64_t i = 0; i < 8; ++i) {
    const std::uint64_t m = i == 0 ? 0 : i == 1 ? huge.size - 16 : r.below(huge.size - 16);
    for (std::uint64_t k = m; k < m + 16; ++k) region()[k] = static_cast<std::uint8_t>(1 + r.below(255));
    p.marks.push_back(m);
  }
  p.adds = adds;
  for (auto& a : p.adds) a.at = a.size < (1u << 20) && r.flag() ? huge.size - a.size : 0;
  SparseBuf buf;
  buf.from = reinterpret_cast<const char*>(region());
  buf.to = buf.from + kRegion;
  buf.marks = p.marks;
  const Out o = run(p, buf);
  verify(ctx, p, buf, o);
  ctx.count("vast");
  ctx.seen(describe(p));
  clear(p);
}

void c15(Ctx& ctx, Rng& r, std::uint64_t n) {
  if (n % 32 == 30 || (ctx.tier != "quick" && n % 32 == 14)) return vast(ctx, r, n / 32);
  const bool faststart = n % 2;
  const unsigned mode = static_cast<unsigned>(n / 2 % 4);
  Plan p = make_plan(r, ctx, faststart);
  const std::size_t big = r.below(p.adds.size());
  const auto total = [&](std::size_t until) {
    std::uint64_t s = 0;
    for (std::size_t i = 0; i < until; ++i) s += p.adds[i].size;
    return s;
  };
  if (mode == 3 && r.chance(1, 2)) {  // a sample that its size field cannot hold
    p.adds[big].size = 0xffffffffULL + r.below(2) * (1 + r.edge(32));
    place(r, p);
    const bool fits = p.adds[big].size <= 0xffffffffULL;
    SparseBuf buf;
    const Out o = run(p, buf);
    if (fits) {
      ctx.count("largest_sample");
      verify(ctx, p, buf, o);
    } else {
      ctx.count("oversized_samples");
      ctx.check(o.error.compare(0, 26, "the recording was refused:") == 0, "oversized", [&] {
        return fmt::format("a sample of {} bytes was recorded without an error ({}) | {}", p.adds[big].size, o.error, describe(p));
      });
    }
    clear(p);
    return;
  }
  if (mode == 0) {  // media data around the limit of the 32-bit size
    // the limit itself and the sizes next to it come up for both writers
    static const int near[] = {-1, 0, -1, 0, 1, -2, 0, -1};
    const std::uint64_t k = n / 8 % 16;
    const std::uint64_t want = k4G - 8 + static_cast<std::uint64_t>(k < 8 ? near[k] : static_cast<int>(r.below(9)) - 5);
    const std::uint64_t rest = total(p.adds.size()) - p.adds[big].size;
    if (r.flag()) {
      p.adds[big].size = want - rest;
    } else {  // the last byte decides
      p.adds[big].size = 0;
      std::size_t last = p.adds.size() - 1;
      if (last == big) last = 0;
      const std::uint64_t part = r.range(1, 3000);
      p.adds[last].size = part;
      p.adds[big].size = want - total(p.adds.size());
    }
  } else if (mode == 1 || mode == 2) {  // a chunk around the limit of the 32-bit offset
    // where the media data begins while all offsets are small
    Plan q = p;
    place(r, q);
    SparseBuf b0;
    const Out o = run(q, b0);
    clear(q);
    if (!ctx.check(o.ok, "recording", [&] { return o.error + " | " + describe(q); })) return;
    std::uint64_t base = o.m.mdat.data();
    // a chunk after the filler whose offset is to be at the limit
    std::vector<std::size_t> starts;
    std::set<std::size_t> open;
    for (std::size_t i = 0; i < p.adds.size(); ++i) {
      const auto& a = p.adds[i];
      if (!open.count(a.track)) {
        open.insert(a.track);
        if (i) starts.push_back(i);
      }
      if (a.end_chunk) open.erase(a.track);
    }
    if (starts.empty()) {
      p.adds[0].end_chunk = true;
      starts.push_back(1);
    }
    const std::size_t at = r.pick(starts), f = r.below(at);
    std::int64_t d = static_cast<std::int64_t>(r.below(7)) - 3;
    if (mode == 2) d = static_cast<std::int64_t>(r.below(160)) - 80;  // the moved movie box decides
    if (r.chance(1, 4) && faststart) base += 8;                       // as after the switch to the larger media header
    p.adds[f].size = 0;
    p.adds[f].size = k4G + static_cast<std::uint64_t>(d) - base - total(at);
    if (p.adds[f].size > 0xffffffffULL) p.adds[f].size = 0xffffffffULL;
    // often nothing but the chunk follows, so that the media data's header stays small
  } else {  // several times the limit
    std::uint64_t sum = 0;
    const std::uint64_t most = ctx.tier == "quick" ? 7ULL << 30 : 14ULL << 30;
    for (auto& a : p.adds)
      if (r.chance(2, 3) && sum < most - (4ULL << 30)) sum += a.size = r.chance(1, 3) ? 0xffffffffULL - r.below(5) : r.edge(32);
  }
  place(r, p);
  SparseBuf buf;
  const Out o = run(p, buf);
  verify(ctx, p, buf, o);
  ctx.count("mode" + std::to_string(mode));
  ctx.seen(describe(p));
  if (n < 8) ctx.sample(describe(p));
  clear(p);
}

Register reg("C15", c15);

}  // namespace
}  // namespace vh
