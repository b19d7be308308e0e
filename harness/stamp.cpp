// C22 recordings made at any time: the clock is the harness's.
#include <fmt/format.h>
#include <sys/time.h>
#include <time.h>

#include <chrono>

#include "scenario.hpp"
#include "sparse.hpp"
#include "tree.hpp"

namespace {
bool own_clock = false;
std::int64_t unix_now = 0;  // seconds
long nanoseconds = 0;
std::uint64_t looked = 0;
}  // namespace

// however the code asks for the time of day
extern "C" {
int __real_clock_gettime(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t id, timespec* t) {
  if (!own_clock || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(id, t);
  ++looked;
  t->tv_sec = unix_now;
  t->tv_nsec = nanoseconds;
  return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) {
  if (!own_clock) return __real_time(t);
  ++looked;
  if (t) *t = unix_now;
  return unix_now;
}
int __real_gettimeofday(timeval*, void*);
int __wrap_gettimeofday(timeval* t, void* z) {
  if (!own_clock) return __real_gettimeofday(t, z);
  ++looked;
  t->tv_sec = unix_now;
  t->tv_usec = nanoseconds / 1000;
  return 0;
}
int __real_timespec_get(timespec*, int);
int __wrap_timespec_get(timespec* t, int base) {
  if (!own_clock || base != TIME_UTC) return __real_timespec_get(t, base);
  ++looked;
  t->tv_sec = unix_now;
  t->tv_nsec = nanoseconds;
  return base;
}
}

namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  timespec t;
  __wrap_clock_gettime(CLOCK_REALTIME, &t);
  return time_point(duration_cast<duration>(seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec)));
}
}  // namespace _V2
}  // namespace std::chrono

namespace vh {
namespace {

void c22_recordings(Ctx& ctx, Rng& r, std::uint64_t n) {
  constexpr std::int64_t kEpoch = 2082844800;
  SpecOptions o;
  o.max_size = 10;
  o.max_samples = 6;
  Spec s = gen_spec(r, o);
  s.path_template = ctx.scratch + "/mdatXXXXXX";
  // instants from 1904 to 2262 (the end of the clock), those around the limits of the 32 bit counts in particular
  std::int64_t at = 0;
  switch (r.below(6)) {
    case 0: at = 0xffffffffLL - kEpoch + static_cast<std::int64_t>(r.below(7)) - 3; break;
    case 1: at = static_cast<std::int64_t>(r.below(7)) - 3 + (r.flag() ? 0x80000000LL : 0xffffffffLL); break;
    case 2: at = static_cast<std::int64_t>(r.below(7)) + (r.flag() ? -3 : 0x7fffffffLL - kEpoch); break;
    case 3: at = -kEpoch + static_cast<std::int64_t>(r.below(1ULL << 32)); break;
    case 4: at = static_cast<std::int64_t>(r.below(1ULL << 33)); break;
    default: at = 1700000000 + static_cast<std::int64_t>(r.below(1000000000));
  }
  if (n % 100 == 0) at = -kEpoch;
  const std::int64_t step = r.chance(1, 3) ? 0 : static_cast<std::int64_t>(r.chance(1, 3) ? 1 : r.below(40000000)) * (r.chance(1, 6) ? -1 : 1);
  const std::uint64_t want = static_cast<std::uint64_t>(at + kEpoch);
  ctx.seen(fmt::format("{} {} {}", at, step, summary(s)));
  if (n < 4) ctx.sample(fmt::format("Unix time {}, moving on by {} s with every step: {}", at, step, summary(s)));
  MemBuf buf;
  std::ostream os(&buf);
  Result res;
  unix_now = at;
  nanoseconds = static_cast<long>(r.flag() ? r.below(1000000000) : r.flag() ? 999999999 : 0);
  // a moment between two seconds before 1970 is rounded towards 1970 by the conversion
  if (at < 0) nanoseconds = 0;
  looked = 0;
  own_clock = true;
  try {
    res = execute(s, os, [&](const char* what, mp4::writer::Writer* w) {
      ctx.check(w->getTimeFromEpoch() == want || !looked, "writer-time",
                [&] { return fmt::format("at {} the writer made at Unix time {} says it was made {} s after 1904, not {}", what, at, w->getTimeFromEpoch(), want); });
      unix_now += step;
    });
    own_clock = false;
  } catch (const std::exception& e) {
    own_clock = false;
    ctx.check(false, "refused", [&] { return fmt::format("a recording at Unix time {} was refused: {} | {}", at, e.what(), summary(s)); });
    return;
  }
  if (!looked) {
    ctx.count("clock_not_seen");
    return;
  }
  os.flush();
  ctx.count("recordings");
  ctx.count(want > 0xffffffffULL ? "stamps_64" : "stamps_32");
  if (step) ctx.count("moving_clocks");
  DMovie m;
  try {
    m = demux(source_of(buf.data));
  } catch (const std::exception& e) {
    ctx.check(false, "structure", [&] { return fmt::format("recorded at Unix time {}: not a well-formed file: {} | {}", at, e.what(), summary(s)); });
    return;
  }
  const auto check = [&](std::uint64_t v, const char* what) {
    ctx.check(v == want, "stamp", [&] { return fmt::format("{} of a recording made at Unix time {} is {} instead of {} | {}", what, at, v, want, summary(s)); });
    ctx.count("stamps");
  };
  check(m.created, "the movie creation time");
  check(m.modified, "the movie modification time");
  for (const auto& t : m.tracks) {
    check(t.tkhd_created, "a track creation time");
    check(t.tkhd_modified, "a track modification time");
    check(t.mdhd_created, "a media creation time");
    check(t.mdhd_modified, "a media modification time");
  }
}

Register r22("C22R", c22_recordings);
}  // namespace
}  // namespace vh
