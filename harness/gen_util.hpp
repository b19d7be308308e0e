// Helpers shared by the gen_*.cpp files.
#pragma once
#include <string>
#include <utility>

#include "gen.hpp"

namespace vh {

inline std::uint8_t anyver(Rng& r) { return r.chance(2, 3) ? 0 : r.u8(); }
inline std::uint32_t anyflags(Rng& r) { return r.chance(1, 2) ? 0 : static_cast<std::uint32_t>(r.edge(24)); }
inline Type4 fourcc(Rng& r) {
  Type4 t;
  for (auto& c : t) c = static_cast<std::uint8_t>(r.range('0', 'z'));
  if (r.chance(1, 8)) t[r.below(4)] = ' ';
  return t;
}
inline BoxCase mk(const char* type, const std::string& variant, Enc& e, std::string dump,
                  std::function<mp4::Box*()> make) {
  BoxCase c;
  c.type = t4(type);
  c.variant = variant;
  c.payload = std::move(e.b);
  c.dump = std::move(dump);
  c.make = std::move(make);
  return c;
}
inline BoxCase mkf(const char* type, const std::string& variant, std::uint8_t ver, std::uint32_t flags, Enc& e,
                   const std::string& rest, std::function<mp4::Box*()> make) {
  BoxCase c = mk(type, variant, e, vf(ver, flags) + rest, std::move(make));
  c.full = true;
  c.version = ver;
  c.flags = flags;
  return c;
}
inline BoxCase counted(BoxCase c, std::size_t offset, unsigned bytes, std::size_t element) {
  c.counts.push_back({offset, bytes, element});
  return c;
}
// ", "-joined list built element by element
struct List {
  std::string s;
  void add(const std::string& e) {
    if (!s.empty()) s += ", ";
    s += e;
  }
};
inline const char* tf(bool b) { return b ? "true" : "false"; }

}  // namespace vh
