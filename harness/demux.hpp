// Independent ISO base media file reader: what a player relies on. Throws std::runtime_error on anything unexpected.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "common.hpp"

namespace vh {

struct Source {
  std::uint64_t size;
  std::function<Bytes(std::uint64_t, std::uint64_t)> read;
};
Source source_of(const Bytes& b);

struct DBox {
  std::string type;
  std::uint64_t offset = 0, size = 0, header = 8;
  std::uint64_t skip = 0;  // own fields before the children
  std::vector<DBox> kids;
  std::uint64_t data() const { return offset + header; }
  std::uint64_t end() const { return offset + size; }
  const DBox* find(const std::string& path) const;  // "a/b/c", first match
  std::size_t count(const std::string& type) const;
};

struct DSample {
  std::uint64_t offset, size, dts, duration;
  std::uint32_t chunk, description;
  bool sync;
};

struct DTrack {
  std::uint32_t id = 0;
  std::uint8_t tkhd_version = 0, mdhd_version = 0, elst_version = 0;
  std::uint32_t tkhd_flags = 0;
  std::uint64_t tkhd_created = 0, tkhd_modified = 0, tkhd_duration = 0;
  std::int16_t layer = 0, alternate_group = 0, volume = 0;
  std::uint32_t width = 0, height = 0;
  std::vector<std::int64_t> matrix;
  std::uint32_t timescale = 0;
  std::uint64_t mdhd_created = 0, mdhd_modified = 0, mdhd_duration = 0;
  std::uint16_t language = 0;
  struct Edit {
    std::uint64_t duration;
    std::int64_t media_time;
    std::int16_t rate, fraction;
  };
  std::vector<Edit> edits;
  std::string handler, handler_name, media_header;
  std::uint32_t media_header_flags = 0;
  Bytes dref, stsd;              // payloads
  bool has_stss = false, co64 = false, has_sgpd = false, has_sbgp = false;
  std::vector<std::uint32_t> sync;
  std::vector<std::uint64_t> chunk_offsets;
  struct Group {
    std::string type;
    std::vector<Bytes> descriptions;
  };
  std::vector<Group> groups;
  struct Assign {
    std::string type;
    std::vector<std::pair<std::uint32_t, std::uint32_t>> runs;
  };
  std::vector<Assign> assigns;
  std::vector<DSample> samples;
  std::vector<std::string> stbl_types;
};

struct DMovie {
  std::vector<DBox> top;
  std::uint8_t mvhd_version = 0;
  std::uint64_t created = 0, modified = 0, duration = 0;
  std::uint32_t timescale = 0, next_track_id = 0;
  std::int32_t rate = 0;
  std::int16_t volume = 0;
  std::vector<DTrack> tracks;
  std::string major;
  std::uint32_t minor = 0;
  std::vector<std::string> brands;
  DBox moov, mdat;
  std::string tool;       // the value of the user data tag
  std::uint32_t tool_type = 0;
  std::string tool_handler;
  std::vector<std::uint64_t> time_fields;  // file offsets and widths of creation and modification times
  std::vector<unsigned> time_widths;
};

DMovie demux(const Source& s);

}  // namespace vh
