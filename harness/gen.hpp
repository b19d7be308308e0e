// Independent generator of well-formed boxes: values, the wire bytes they must have (own encoder, written from the
// specifications) and the dump they must give.
#pragma once
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "common.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_type.hpp"

namespace vh {

namespace mp4 = shiguredo::mp4;
using Type4 = std::array<std::uint8_t, 4>;

inline Type4 t4(const char* s) {
  return {static_cast<std::uint8_t>(s[0]), static_cast<std::uint8_t>(s[1]), static_cast<std::uint8_t>(s[2]),
          static_cast<std::uint8_t>(s[3])};
}

// most significant bit first encoder
struct Enc {
  Bytes b;
  unsigned acc = 0, n = 0;
  Enc& u(std::uint64_t v, unsigned bits) {
    for (unsigned i = bits; i-- > 0;) {
      acc = (acc << 1) | static_cast<unsigned>((v >> i) & 1);
      if (++n == 8) {
        b.push_back(static_cast<std::uint8_t>(acc));
        acc = 0;
        n = 0;
      }
    }
    return *this;
  }
  Enc& u8(std::uint64_t v) { return u(v, 8); }
  Enc& u16(std::uint64_t v) { return u(v, 16); }
  Enc& u24(std::uint64_t v) { return u(v, 24); }
  Enc& u32(std::uint64_t v) { return u(v, 32); }
  Enc& u64(std::uint64_t v) { return u(v, 64); }
  Enc& raw(const Bytes& d) {
    b.insert(b.end(), d.begin(), d.end());
    return *this;
  }
  Enc& raw(const Type4& d) {
    b.insert(b.end(), d.begin(), d.end());
    return *this;
  }
  Enc& text(const std::string& s) {
    b.insert(b.end(), s.begin(), s.end());
    return *this;
  }
  Enc& str(const std::string& s) {
    text(s);
    b.push_back(0);
    return *this;
  }
  // 4-byte form of a descriptor length
  Enc& var4(std::uint32_t v) {
    return u8(0x80 | ((v >> 21) & 0x7f)).u8(0x80 | ((v >> 14) & 0x7f)).u8(0x80 | ((v >> 7) & 0x7f)).u8(v & 0x7f);
  }
  Enc& full(std::uint8_t version, std::uint32_t flags) { return u8(version).u24(flags); }
};

struct CountField {
  std::size_t offset;  // of the count in the payload
  unsigned bytes;      // its width
  std::size_t element;  // minimal size of an element
};

struct BoxCase {
  std::string variant;
  Type4 type{};
  std::function<mp4::Box*()> make;
  Bytes payload;
  std::string dump;
  std::string read_dump;        // dump of the box read back when it differs from `dump`
  bool container = false;       // children may follow the payload
  bool full = false;            // has version and flags
  std::uint8_t version = 0;     // if full
  std::uint32_t flags = 0;      // if full
  bool vf_settable = false;     // version and flags do not influence the layout
  std::vector<CountField> counts;
};

using Gen = BoxCase (*)(Rng&);
struct Kind {
  const char* name;
  Gen gen;
};
const std::vector<Kind>& kinds();
BoxCase gen_box(Rng&);                                   // any kind
BoxCase gen_kind(const std::string& name, Rng&);         // one kind
BoxCase gen_container(const char* type);                 // payload-less container
BoxCase gen_unsupported(Rng&);

// kinds are registered by the gen_*.cpp files
void add_kinds_simple(std::vector<Kind>&);
void add_kinds_table(std::vector<Kind>&);
void add_kinds_codec(std::vector<Kind>&);
const std::vector<const char*>& container_types();

// number of list elements: mostly few, now and then hundreds, in `big` mode more than 65535
std::size_t list_len(Rng&);
struct BigLists {
  BigLists();
  ~BigLists();
};
std::string text(Rng&, std::size_t max);  // without NUL
bool big_lists();                               // under BigLists
std::string long_text(Rng&, std::size_t max);  // the same, beyond 65535 bytes under BigLists
std::string hexlist(const Bytes&);
std::string type_text(const Type4&);   // as shown in dumps
std::string vf(std::uint8_t version, std::uint32_t flags);
std::string time_text(std::uint64_t t);  // seconds since 1904 -> text
std::uint64_t time_value(Rng&, unsigned bits);
bool is_supported_type(const Type4&);
std::string as_string(const Type4&);

// executes write/read on library boxes
Bytes lib_write_data(const mp4::Box&, std::uint64_t* bits = nullptr);

}  // namespace vh
