#include <fmt/format.h>
#include <fmt/ranges.h>

#include <sstream>

#include "gen.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"

namespace vh {

static int g_big = 0;
BigLists::BigLists() { ++g_big; }
BigLists::~BigLists() { --g_big; }

bool big_lists() { return g_big > 0; }

std::size_t list_len(Rng& r) {
  if (g_big && r.chance(2, 3)) return r.pick(std::vector<std::size_t>{65535, 65536, 65537, 70001});
  if (r.chance(1, 40)) return r.range(200, 600);
  if (r.chance(1, 12)) return r.range(9, 40);
  return r.below(6);
}

std::string text(Rng& r, std::size_t max) {
  std::size_t n = r.chance(1, 4) ? r.below(3) : r.below(max + 1);
  if (r.chance(1, 60)) n = r.range(250, 300) < max ? r.range(250, 300) : max;
  std::string s;
  const bool wild = r.chance(1, 6);
  for (std::size_t i = 0; i < n; ++i)
    s += static_cast<char>(wild ? r.range(1, 255) : r.range(0x20, 0x7e));
  return s;
}

std::string long_text(Rng& r, std::size_t max) {
  std::string s = text(r, max);
  if (g_big && r.chance(1, 2)) s += std::string(r.range(65530, 65540), static_cast<char>(r.range('a', 'z')));
  return s;
}

std::string hexlist(const Bytes& b) { return fmt::format("{:#x}", fmt::join(b, ", ")); }

std::string as_string(const Type4& t) { return std::string(t.begin(), t.end()); }

std::string type_text(const Type4& t) {
  std::string s;
  for (auto c : t) {
    if (c == 0xa9) {
      s += "\xc2\xa9";
    } else if (c >= 0x20 && c < 0x7f) {
      s += static_cast<char>(c);
    } else {
      return strf("0x%02x%02x%02x%02x", t[0], t[1], t[2], t[3]);
    }
  }
  return s;
}

std::string vf(std::uint8_t version, std::uint32_t flags) { return strf("Version=%u Flags=0x%06x", version, flags); }

// proleptic Gregorian calendar by counting days (independent of libc)
std::string time_text(std::uint64_t t) {
  if (t > 2082844800ULL + 0xffffffffULL) return "0000-00-00T00:00:00Z";
  std::uint64_t days = t / 86400, sec = t % 86400;
  unsigned y = 1904;
  auto leap = [](unsigned yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
  while (days >= (leap(y) ? 366U : 365U)) {
    days -= leap(y) ? 366 : 365;
    ++y;
  }
  static const unsigned len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  unsigned m = 0;
  while (days >= len[m] + (m == 1 && leap(y) ? 1U : 0U)) {
    days -= len[m] + (m == 1 && leap(y) ? 1U : 0U);
    ++m;
  }
  return strf("%04u-%02u-%02uT%02u:%02u:%02uZ", y, m + 1, static_cast<unsigned>(days) + 1,
              static_cast<unsigned>(sec / 3600), static_cast<unsigned>(sec / 60 % 60), static_cast<unsigned>(sec % 60));
}

std::uint64_t time_value(Rng& r, unsigned bits) {
  switch (r.below(6)) {
    case 0: return r.edge(bits);
    case 1: return bits == 32 ? r.below(1ULL << 32) : 2082844800ULL + 0xffffffffULL - 3 + r.below(8);
    case 2: return 2082844800ULL - 3 + r.below(6);
    case 3: return r.below(150) * 31556952ULL & 0xffffffffULL;
    default: return r.below(1ULL << 32);
  }
}

const std::vector<const char*>& container_types() {
  static const std::vector<const char*> v{"moov", "trak", "mdia", "minf", "stbl", "dinf", "edts", "udta", "ilst",
                                          "mvex", "moof", "traf", "mfra", "wave", "schi", "sinf"};
  return v;
}

BoxCase gen_container(const char* type) {
  BoxCase c;
  c.variant = type;
  c.type = t4(type);
  c.container = true;
  const std::string s = type;
  using namespace mp4::box;
  if (s == "moov") c.make = []() -> mp4::Box* { return new Moov(); };
  if (s == "trak") c.make = []() -> mp4::Box* { return new Trak(); };
  if (s == "mdia") c.make = []() -> mp4::Box* { return new Mdia(); };
  if (s == "minf") c.make = []() -> mp4::Box* { return new Minf(); };
  if (s == "stbl") c.make = []() -> mp4::Box* { return new Stbl(); };
  if (s == "dinf") c.make = []() -> mp4::Box* { return new Dinf(); };
  if (s == "edts") c.make = []() -> mp4::Box* { return new Edts(); };
  if (s == "udta") c.make = []() -> mp4::Box* { return new Udta(); };
  if (s == "ilst") c.make = []() -> mp4::Box* { return new Ilst(); };
  if (s == "mvex") c.make = []() -> mp4::Box* { return new Mvex(); };
  if (s == "moof") c.make = []() -> mp4::Box* { return new Moof(); };
  if (s == "traf") c.make = []() -> mp4::Box* { return new Traf(); };
  if (s == "mfra") c.make = []() -> mp4::Box* { return new Mfra(); };
  if (s == "wave") c.make = []() -> mp4::Box* { return new Wave(); };
  if (s == "schi") c.make = []() -> mp4::Box* { return new Schi(); };
  if (s == "sinf") c.make = []() -> mp4::Box* { return new Sinf(); };
  return c;
}

static BoxCase k_container(Rng& r) { return gen_container(r.pick(container_types())); }

static const char* ilst_types[] = {"----", "aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt",
                                   "desc", "disk", "egid", "geID", "gnre", "pcst", "pgap", "plID", "purd", "purl", "rtng", "sfID",
                                   "soaa", "soal", "soar", "soco", "sonm", "sosn", "stik", "tmpo", "trkn", "tven",
                                   "tves", "tvnn", "tvsh", "tvsn",
                                   "\xa9" "ART", "\xa9" "alb", "\xa9" "cmt", "\xa9" "com", "\xa9" "day", "\xa9" "gen",
                                   "\xa9" "grp", "\xa9" "nam", "\xa9" "too", "\xa9" "wrt"};

static BoxCase k_ilst_meta(Rng& r) {
  BoxCase c;
  static const char* some[] = {"\xa9" "too", "\xa9" "nam", "\xa9" "ART", "aART", "akID", "----"};
  c.type = t4(some[r.below(6)]);
  c.variant = "ilst-item";
  c.container = true;
  const Type4 t = c.type;
  c.make = [t]() -> mp4::Box* { return new mp4::box::IlstMeta({.type = mp4::BoxType(t)}); };
  return c;
}

bool is_supported_type(const Type4& t) {
  static const char* known[] = {
      "btrt", "co64", "colr", "ctts", "data", "dinf", "dOps", "dref", "edts", "elst", "emsg", "esds", "fiel", "free",
      "ftyp", "hdlr", "ilst", "iods", "mdat", "mdhd", "mdia", "mehd", "meta", "mfhd", "mfra", "mfro", "minf", "moof",
      "moov", "mvex", "mvhd", "pssh", "sbgp", "schi", "sdtp", "sgpd", "sidx", "sinf", "skip", "smhd", "stbl", "stco",
      "stsc", "stsd", "stss", "stsz", "stts", "styp", "tfdt", "tfhd", "tfra", "traf", "trak", "tkhd", "trex", "trun",
      "udta", "url ", "urn ", "vmhd", "wave", "avc1", "encv", "vp08", "vp09", "vp10", "av01", "mp4a", "enca", "Opus",
      "avcC", "vpcC", "av1C", "pasp"};
  for (auto k : known)
    if (t == t4(k)) return true;
  for (auto k : ilst_types)
    if (t == t4(k)) return true;
  return false;
}

BoxCase gen_unsupported(Rng& r) {
  BoxCase c;
  do {
    switch (r.below(4)) {
      case 0:
        for (auto& x : c.type) x = static_cast<std::uint8_t>(r.range('a', 'z'));
        break;
      case 1:
        for (auto& x : c.type) x = static_cast<std::uint8_t>(r.next());
        break;
      case 2: {  // one character away from a supported type
        c.type = t4(r.pick(std::vector<const char*>{"moov", "mdat", "stco", "trak", "mp4a", "url ", "free", "avcC"}));
        c.type[r.below(4)] ^= static_cast<std::uint8_t>(1U << r.below(8));
        break;
      }
      default:
        c.type = t4(r.pick(std::vector<const char*>{"uuid", "cslg", "padb", "stz2", "hvcC", "hev1", "nmhd", "prft",
                                                    "senc", "saiz", "tref", "load", "subs"}));
    }
  } while (is_supported_type(c.type) || c.type == Type4{0, 0, 0, 0});
  c.variant = "unsupported";
  c.payload = r.bytes(r.chance(1, 5) ? 0 : r.below(40));
  if (g_big) c.payload = r.bytes(r.pick(std::vector<std::size_t>{65535, 65536, 65537, 70001, 131100}));
  c.dump = "(unsupported) Data=[" + hexlist(c.payload) + "]";
  const Bytes d = c.payload;
  c.make = [d]() -> mp4::Box* { return new mp4::box::Unsupported({.data = d}); };
  return c;
}

const std::vector<Kind>& kinds() {
  static const std::vector<Kind> v = [] {
    std::vector<Kind> k;
    k.push_back({"container", k_container});
    k.push_back({"ilst-item", k_ilst_meta});
    add_kinds_simple(k);
    add_kinds_table(k);
    add_kinds_codec(k);
    return k;
  }();
  return v;
}

BoxCase gen_box(Rng& r) { return r.pick(kinds()).gen(r); }

BoxCase gen_kind(const std::string& name, Rng& r) {
  for (const auto& k : kinds())
    if (name == k.name) return k.gen(r);
  std::abort();
}

Bytes lib_write_data(const mp4::Box& b, std::uint64_t* bits) {
  std::ostringstream os;
  const auto n = b.writeData(os);
  if (bits) *bits = n;
  const std::string s = os.str();
  return Bytes(s.begin(), s.end());
}

}  // namespace vh
