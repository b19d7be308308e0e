// Recordings: generated sequences of calls on a writer and its tracks, executed on the library, with what they must give.
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <vector>

#include "demux.hpp"
#include "gen.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/track/track.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"

namespace vh {

enum class Kind7 { AAC, MP3, OPUS, AV1, VP8, VP9, H264 };
const char* kind_name(Kind7);
inline bool is_video(Kind7 k) { return k != Kind7::AAC && k != Kind7::MP3 && k != Kind7::OPUS; }

struct TrackSpec {
  Kind7 kind = Kind7::OPUS;
  std::uint32_t timescale = 48000;
  float duration = 1;
  std::int64_t media_time = 0;
  bool set_media_time = false;  // through setMediaTime after construction
  std::uint32_t width = 640, height = 480, buffer = 768, max_bitrate = 0, avg_bitrate = 0;
  std::uint64_t pre_skip = 312;
  std::int16_t roll = -4;
  std::uint8_t av1[6] = {0, 0, 0, 1, 1, 0};
  std::optional<Bytes> obus;
  bool set_obus = false;  // through setConfigOBUs after construction
  std::uint8_t h264[4] = {1, 0x42, 0xc0, 31};
  bool minimal = false;   // created with the mandatory parameters only, so with the default values of the others
  unsigned id_gap = 0;    // identifiers fetched and not used before this track's
};

struct Nal {
  Bytes data;
  bool long_code;
};

struct Call {
  std::size_t track = 0;
  bool terminate = false;  // terminateCurrentChunk instead of addData
  std::uint64_t ts = 0;
  Bytes data;
  bool key = false, pointer = false;
  std::vector<Nal> nals;  // H.264: what `data` consists of; of a refused call: what precedes the offending unit
  enum { GOOD, GAP, OVERSIZE, MALFORMED, NO_IDENTIFIER, UNWRITTEN } fault = GOOD;  // why the call is to be refused
  bool half = false;      // UNWRITTEN: a part of the data is written
};

// the media data cannot be written: the write that starts after so many bytes fails
struct WriteFault {
  std::int64_t after = -1;
  bool half = false;
  std::uint64_t fired = 0;
  // how many of the bytes may be written
  std::size_t room(std::size_t n) {
    if (after < 0 || n == 0) return n;
    if (after >= static_cast<std::int64_t>(n)) {
      after -= static_cast<std::int64_t>(n);
      return n;
    }
    after = -1;
    ++fired;
    return half ? n / 2 : 0;
  }
};
extern WriteFault write_fault;

struct Spec {
  bool faststart = false;
  std::uint32_t mvhd_timescale = 1000;
  float duration = 1;
  bool own_ftyp = false;
  Type4 major{};
  std::uint32_t minor = 0;
  std::vector<Type4> brands;
  std::vector<TrackSpec> tracks;
  std::vector<Call> calls;
  std::vector<std::size_t> append;  // order of the tracks in the movie
  bool late = false;                // tracks are created on first use
  unsigned id_tail = 0;             // identifiers fetched after the tracks' and not used
  std::string path_template = "mdatXXXXXX";
};

struct SpecOptions {
  std::vector<Kind7> kinds = {Kind7::AAC, Kind7::MP3, Kind7::OPUS, Kind7::AV1, Kind7::VP8, Kind7::VP9, Kind7::H264};
  unsigned max_tracks = 4;
  bool big_data = false;     // totals around the size of the copy buffer
  bool many = false;         // thousands of samples
  bool crowd = false;        // hundreds of tracks
  bool huge_sample = false;  // one of 16 MiB
  unsigned long_run = 0;     // additional tiny samples in one go on one track
  unsigned max_samples = 50;
  bool wild_times = false;   // timestamps and durations beyond 32 bits
  unsigned max_size = 300;   // of a sample
};

Spec gen_spec(Rng& r, const SpecOptions& o);
void fit_durations(Spec& s);  // durations in the movie's timescale have to fit 64 bits
Bytes gen_nal(Rng& r, unsigned type, std::size_t max);
Bytes annexb(const std::vector<Nal>& nals);
std::string summary(const Spec& s);

struct ESample {
  Bytes data;
  std::uint64_t ts;
  bool key;
};
struct ETrack {
  std::vector<ESample> samples;
  std::vector<Bytes> sps, pps;
  Bytes stsd;  // payload of the sample description box
};

struct Result {
  std::vector<std::uint32_t> ids;   // per track
  std::uint32_t next_id = 0;        // what the writer would hand out next
  std::string intermediate;
  std::vector<std::size_t> accepted;  // calls that were to be refused and were not
  std::uint64_t epoch = 0;          // what the writer says the recording time is
};

std::unique_ptr<mp4::track::Track> make_track(const TrackSpec& t, std::uint32_t id, mp4::writer::Writer* w);

// executes the calls; `stage` is told after every step. Throws what the library throws.
using Stage = std::function<void(const char*, mp4::writer::Writer*)>;
Result execute(const Spec& s, std::ostream& os, const Stage& stage = nullptr);
std::vector<ETrack> expect(const Spec& s, const Result& r);
// times set to zero
Bytes normalised(const Bytes& file, const DMovie& m);

}  // namespace vh
