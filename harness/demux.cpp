#include "demux.hpp"

#include <algorithm>
#include <set>
#include <stdexcept>

namespace vh {
namespace {

[[noreturn]] void bad(const std::string& what) { throw std::runtime_error(what); }

struct Cur {
  const Bytes& b;
  std::size_t at = 0;
  std::string what;
  std::uint64_t u(unsigned n) {
    if (at + n > b.size()) bad(what + ": payload too short");
    std::uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) v = v << 8 | b[at + i];
    at += n;
    return v;
  }
  std::string s(std::size_t n) {
    if (at + n > b.size()) bad(what + ": payload too short");
    std::string r(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n));
    at += n;
    return r;
  }
  void end() {
    if (at != b.size()) bad(what + strf(": %zu bytes left in the box", b.size() - at));
  }
};

const std::set<std::string> containers{"moov", "trak", "edts", "mdia", "minf", "dinf", "stbl", "udta", "meta", "ilst", "\xa9too"};

DBox header(const Source& s, std::uint64_t at, std::uint64_t end) {
  if (end - at < 8) bad(strf("%llu stray bytes at %llu", static_cast<unsigned long long>(end - at), static_cast<unsigned long long>(at)));
  const Bytes h = s.read(at, std::min<std::uint64_t>(16, end - at));
  Cur c{h, 0, "header"};
  DBox b;
  b.offset = at;
  b.size = c.u(4);
  b.type = c.s(4);
  if (b.size == 1) {
    b.size = c.u(8);
    b.header = 16;
  } else if (b.size == 0) {
    b.size = end - at;
  }
  if (b.size < b.header || b.size > end - at)
    bad(strf("box %s at %llu has size %llu, %llu available", b.type.c_str(), static_cast<unsigned long long>(at),
             static_cast<unsigned long long>(b.size), static_cast<unsigned long long>(end - at)));
  return b;
}

void children(const Source& s, DBox& b, unsigned depth) {
  if (!containers.count(b.type) || depth > 12) return;
  b.skip = b.type == "meta" ? 4 : 0;
  for (std::uint64_t at = b.data() + b.skip; at < b.end();) {
    DBox k = header(s, at, b.end());
    children(s, k, depth + 1);
    at = k.end();
    b.kids.push_back(std::move(k));
  }
}

Bytes payload(const Source& s, const DBox& b) { return s.read(b.data(), b.size - b.header); }

const DBox& need(const DBox& b, const char* path) {
  const DBox* p = b.find(path);
  if (!p) bad(b.type + " has no " + path);
  return *p;
}

// version/flags
std::uint8_t full(Cur& c, std::uint32_t* flags = nullptr) {
  const std::uint8_t v = static_cast<std::uint8_t>(c.u(1));
  const std::uint32_t f = static_cast<std::uint32_t>(c.u(3));
  if (flags) *flags = f;
  return v;
}

void one(const DBox& b, const char* type) {
  if (b.count(type) != 1) bad(b.type + strf(" has %zu boxes ", b.count(type)) + type);
}

DTrack track(const Source& s, const DBox& t, DMovie& m) {
  DTrack d;
  for (const char* k : {"tkhd", "mdia"}) one(t, k);
  {
    const DBox& b = need(t, "tkhd");
    const Bytes p = payload(s, b);
    Cur c{p, 0, "tkhd"};
    d.tkhd_version = full(c, &d.tkhd_flags);
    const unsigned w = d.tkhd_version == 1 ? 8 : 4;
    if (d.tkhd_version > 1) bad("tkhd version");
    m.time_fields.push_back(b.data() + 4);
    m.time_fields.push_back(b.data() + 4 + w);
    m.time_widths.insert(m.time_widths.end(), 2, w);
    d.tkhd_created = c.u(w);
    d.tkhd_modified = c.u(w);
    d.id = static_cast<std::uint32_t>(c.u(4));
    c.u(4);
    d.tkhd_duration = c.u(w);
    c.u(8);
    d.layer = static_cast<std::int16_t>(c.u(2));
    d.alternate_group = static_cast<std::int16_t>(c.u(2));
    d.volume = static_cast<std::int16_t>(c.u(2));
    c.u(2);
    for (int i = 0; i < 9; ++i) d.matrix.push_back(static_cast<std::int32_t>(c.u(4)));
    d.width = static_cast<std::uint32_t>(c.u(4));
    d.height = static_cast<std::uint32_t>(c.u(4));
    c.end();
  }
  if (const DBox* b = t.find("edts/elst")) {
    const Bytes p = payload(s, *b);
    Cur c{p, 0, "elst"};
    d.elst_version = full(c);
    if (d.elst_version > 1) bad("elst version");
    const auto n = c.u(4);
    for (std::uint64_t i = 0; i < n; ++i) {
      DTrack::Edit e;
      e.duration = c.u(d.elst_version ? 8 : 4);
      e.media_time = d.elst_version ? static_cast<std::int64_t>(c.u(8)) : static_cast<std::int32_t>(c.u(4));
      e.rate = static_cast<std::int16_t>(c.u(2));
      e.fraction = static_cast<std::int16_t>(c.u(2));
      d.edits.push_back(e);
    }
    c.end();
  }
  const DBox& mdia = need(t, "mdia");
  for (const char* k : {"mdhd", "hdlr", "minf"}) one(mdia, k);
  {
    const DBox& b = need(mdia, "mdhd");
    const Bytes p = payload(s, b);
    Cur c{p, 0, "mdhd"};
    d.mdhd_version = full(c);
    if (d.mdhd_version > 1) bad("mdhd version");
    const unsigned w = d.mdhd_version == 1 ? 8 : 4;
    m.time_fields.push_back(b.data() + 4);
    m.time_fields.push_back(b.data() + 4 + w);
    m.time_widths.insert(m.time_widths.end(), 2, w);
    d.mdhd_created = c.u(w);
    d.mdhd_modified = c.u(w);
    d.timescale = static_cast<std::uint32_t>(c.u(4));
    d.mdhd_duration = c.u(w);
    d.language = static_cast<std::uint16_t>(c.u(2));
    c.u(2);
    c.end();
  }
  {
    const Bytes p = payload(s, need(mdia, "hdlr"));
    Cur c{p, 0, "hdlr"};
    full(c);
    c.u(4);
    d.handler = c.s(4);
    c.u(12);
    while (true) {
      const char ch = static_cast<char>(c.u(1));
      if (!ch) break;
      d.handler_name += ch;
    }
    c.end();
  }
  const DBox& minf = need(mdia, "minf");
  for (const char* k : {"dinf", "stbl"}) one(minf, k);
  for (const char* k : {"vmhd", "smhd"})
    if (const DBox* b = minf.find(k)) {
      if (!d.media_header.empty()) bad("two media headers");
      d.media_header = k;
      const Bytes p = payload(s, *b);
      Cur c{p, 0, k};
      full(c, &d.media_header_flags);
    }
  d.dref = payload(s, need(minf, "dinf/dref"));
  const DBox& stbl = need(minf, "stbl");
  for (const char* k : {"stsd", "stts", "stsc", "stsz"}) one(stbl, k);
  for (const auto& k : stbl.kids) d.stbl_types.push_back(k.type);
  d.stsd = payload(s, need(stbl, "stsd"));
  // sample sizes
  std::vector<std::uint64_t> sizes;
  {
    const Bytes p = payload(s, need(stbl, "stsz"));
    Cur c{p, 0, "stsz"};
    full(c);
    const auto common = c.u(4);
    const auto n = c.u(4);
    for (std::uint64_t i = 0; i < n; ++i) sizes.push_back(common ? common : c.u(4));
    c.end();
  }
  // chunks
  if (stbl.count("stco") + stbl.count("co64") != 1) bad("not exactly one chunk offset table");
  {
    const DBox* b = stbl.find("stco");
    d.co64 = b == nullptr;
    if (!b) b = stbl.find("co64");
    const Bytes p = payload(s, *b);
    Cur c{p, 0, "stco"};
    full(c);
    const auto n = c.u(4);
    for (std::uint64_t i = 0; i < n; ++i) d.chunk_offsets.push_back(c.u(d.co64 ? 8 : 4));
    c.end();
  }
  {
    const Bytes p = payload(s, need(stbl, "stsc"));
    Cur c{p, 0, "stsc"};
    full(c);
    const auto n = c.u(4);
    struct Run {
      std::uint64_t first, per, desc;
    };
    std::vector<Run> runs;
    for (std::uint64_t i = 0; i < n; ++i) {
      Run r;
      r.first = c.u(4);
      r.per = c.u(4);
      r.desc = c.u(4);
      if (i == 0 ? r.first != 1 : r.first <= runs.back().first) bad("stsc: first chunks are not increasing from 1");
      if (r.first > d.chunk_offsets.size()) bad("stsc: a run starts after the last chunk");
      runs.push_back(r);
    }
    c.end();
    std::size_t at = 0;
    for (std::size_t i = 0; i < runs.size(); ++i) {
      const std::uint64_t next = i + 1 < runs.size() ? runs[i + 1].first : d.chunk_offsets.size() + 1;
      for (std::uint64_t ch = runs[i].first; ch < next; ++ch) {
        std::uint64_t off = d.chunk_offsets[ch - 1];
        for (std::uint64_t k = 0; k < runs[i].per; ++k) {
          if (at >= sizes.size()) bad(strf("the chunks hold more than the %zu samples", sizes.size()));
          d.samples.push_back({off, sizes[at], 0, 0, static_cast<std::uint32_t>(ch), static_cast<std::uint32_t>(runs[i].desc), false});
          off += sizes[at++];
        }
      }
    }
    if (at != sizes.size()) bad(strf("the chunks hold %zu of %zu samples", at, sizes.size()));
  }
  {
    const Bytes p = payload(s, need(stbl, "stts"));
    Cur c{p, 0, "stts"};
    full(c);
    const auto n = c.u(4);
    std::size_t at = 0;
    std::uint64_t t2 = 0;
    for (std::uint64_t i = 0; i < n; ++i) {
      const auto k = c.u(4), dur = c.u(4);
      for (std::uint64_t j = 0; j < k; ++j) {
        if (at >= d.samples.size()) bad("stts covers more samples than there are");
        d.samples[at].dts = t2;
        d.samples[at].duration = dur;
        t2 += dur;
        ++at;
      }
    }
    c.end();
    if (at != d.samples.size()) bad(strf("stts covers %zu of %zu samples", at, d.samples.size()));
  }
  if (const DBox* b = stbl.find("stss")) {
    one(stbl, "stss");
    d.has_stss = true;
    const Bytes p = payload(s, *b);
    Cur c{p, 0, "stss"};
    full(c);
    const auto n = c.u(4);
    for (std::uint64_t i = 0; i < n; ++i) {
      d.sync.push_back(static_cast<std::uint32_t>(c.u(4)));
      if (d.sync.back() == 0 || d.sync.back() > d.samples.size()) bad(strf("stss lists sample %u of %zu", d.sync.back(), d.samples.size()));
      d.samples[d.sync.back() - 1].sync = true;
    }
    c.end();
  } else {
    for (auto& x : d.samples) x.sync = true;
  }
  for (const auto& k : stbl.kids) {
    const Bytes p = payload(s, k);
    Cur c{p, 0, k.type};
    if (k.type == "sgpd") {
      const auto v = full(c);
      DTrack::Group g;
      g.type = c.s(4);
      std::uint64_t len = v == 1 ? c.u(4) : 0;
      if (v >= 2) c.u(4);
      const auto n = c.u(4);
      for (std::uint64_t i = 0; i < n; ++i) {
        const std::uint64_t l = v == 1 ? (len ? len : c.u(4)) : p.size() - c.at;
        Bytes e;
        for (std::uint64_t j = 0; j < l; ++j) e.push_back(static_cast<std::uint8_t>(c.u(1)));
        g.descriptions.push_back(e);
      }
      c.end();
      d.groups.push_back(g);
    } else if (k.type == "sbgp") {
      const auto v = full(c);
      DTrack::Assign a;
      a.type = c.s(4);
      if (v == 1) c.u(4);
      const auto n = c.u(4);
      for (std::uint64_t i = 0; i < n; ++i) {
        const auto cnt = static_cast<std::uint32_t>(c.u(4));
        a.runs.push_back({cnt, static_cast<std::uint32_t>(c.u(4))});
      }
      c.end();
      d.assigns.push_back(a);
    }
  }
  return d;
}

}  // namespace

Source source_of(const Bytes& b) {
  return {b.size(), [&b](std::uint64_t at, std::uint64_t n) {
            if (at + n > b.size()) bad("read past the end of the file");
            return Bytes(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n));
          }};
}

const DBox* DBox::find(const std::string& path) const {
  const auto slash = path.find('/');
  const std::string head = path.substr(0, slash);
  for (const auto& k : kids)
    if (k.type == head) return slash == std::string::npos ? &k : k.find(path.substr(slash + 1));
  return nullptr;
}

std::size_t DBox::count(const std::string& t) const {
  std::size_t n = 0;
  for (const auto& k : kids) n += k.type == t;
  return n;
}

DMovie demux(const Source& s) {
  DMovie m;
  int n_moov = 0, n_mdat = 0;
  for (std::uint64_t at = 0; at < s.size;) {
    DBox b = header(s, at, s.size);
    children(s, b, 0);
    at = b.end();
    if (b.type == "moov") {
      m.moov = b;
      ++n_moov;
    } else if (b.type == "mdat") {
      m.mdat = b;
      ++n_mdat;
    } else if (b.type != "ftyp" && b.type != "free") {
      bad("unexpected top level box " + b.type);
    }
    m.top.push_back(std::move(b));
  }
  if (n_moov != 1 || n_mdat != 1) bad(strf("%d movie and %d media data boxes", n_moov, n_mdat));
  if (m.top[0].type != "ftyp") bad("the file does not start with ftyp");
  {
    const Bytes p = payload(s, m.top[0]);
    Cur c{p, 0, "ftyp"};
    m.major = c.s(4);
    m.minor = static_cast<std::uint32_t>(c.u(4));
    while (c.at < p.size()) m.brands.push_back(c.s(4));
  }
  one(m.moov, "mvhd");
  {
    const DBox& b = need(m.moov, "mvhd");
    const Bytes p = payload(s, b);
    Cur c{p, 0, "mvhd"};
    m.mvhd_version = full(c);
    if (m.mvhd_version > 1) bad("mvhd version");
    const unsigned w = m.mvhd_version == 1 ? 8 : 4;
    m.time_fields = {b.data() + 4, b.data() + 4 + w};
    m.time_widths = {w, w};
    m.created = c.u(w);
    m.modified = c.u(w);
    m.timescale = static_cast<std::uint32_t>(c.u(4));
    m.duration = c.u(w);
    m.rate = static_cast<std::int32_t>(c.u(4));
    m.volume = static_cast<std::int16_t>(c.u(2));
    c.u(10);
    for (int i = 0; i < 9; ++i) c.u(4);
    for (int i = 0; i < 6; ++i) c.u(4);
    m.next_track_id = static_cast<std::uint32_t>(c.u(4));
    c.end();
  }
  for (const auto& k : m.moov.kids) {
    if (k.type == "trak") {
      m.tracks.push_back(track(s, k, m));
    } else if (k.type != "mvhd" && k.type != "udta") {
      bad("unexpected box in moov: " + k.type);
    }
  }
  if (m.moov.count("udta") > 1) bad("several user data boxes");
  if (const DBox* h = m.moov.find("udta/meta/hdlr")) {
    const Bytes p = payload(s, *h);
    Cur c{p, 0, "hdlr"};
    c.u(8);
    m.tool_handler = c.s(4);
  }
  if (const DBox* t = m.moov.find("udta/meta/ilst/\xa9too/data")) {
    const Bytes p = payload(s, *t);
    Cur c{p, 0, "data"};
    m.tool_type = static_cast<std::uint32_t>(c.u(4));
    c.u(4);
    m.tool = c.s(p.size() - c.at);
  }
  return m;
}

}  // namespace vh
