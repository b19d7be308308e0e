#include "tree.hpp"

#include <algorithm>
#include <iostream>
#include <sstream>

#include "gen_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

namespace vh {
namespace {

BoxCase under_wave(Rng& r) {
  const char* type = r.pick(std::vector<const char*>{"mp4a", "enca", "Opus"});
  const Bytes d = r.bytes(r.below(30));
  Enc e;
  e.raw(d);
  const Type4 t = t4(type);
  auto c = mk(type, "audio-under-wave", e, "QuickTimeData=[" + hexlist(d) + "]", [=]() -> mp4::Box* {
    return new mp4::box::AudioSampleEntry({.type = mp4::BoxType(t), .is_quick_time_compatible = true, .quick_time_data = d});
  });
  return c;
}

bool audio(const BoxCase& c) { return c.type == t4("mp4a") || c.type == t4("enca") || c.type == t4("Opus"); }

Node gen_node(Rng& r, const TreeOptions& o, unsigned depth, unsigned& budget, const Node* parent) {
  Node n;
  if (o.unknown && r.chance(1, 3)) {
    n.c = gen_unsupported(r);
  } else {
    switch (r.below(5)) {
      case 0:
      case 1: n.c = gen_kind("container", r); break;
      case 2: n.c = gen_kind(r.pick(std::vector<std::string>{"meta", "stsd", "dref", "visual", "ilst-item", "audio"}), r); break;
      default: n.c = gen_box(r);
    }
  }
  if (parent && parent->c.type == t4("wave") && audio(n.c)) n.c = under_wave(r);
  if (o.forms && r.chance(1, 4)) n.form = 1;
  if ((n.c.container || (o.any_parent && r.chance(1, 8))) && depth + 1 < o.max_depth) {
    std::size_t k = r.below(5);
    if (r.chance(1, 10)) k = r.below(14);
    while (k-- > 0 && budget > 0) {
      --budget;
      n.kids.push_back(gen_node(r, o, depth + 1, budget, &n));
    }
  }
  return n;
}

std::uint64_t layout1(Node& n, std::uint64_t offset) {
  n.offset = offset;
  n.header = n.form == 1 ? 16 : 8;
  std::uint64_t at = offset + n.header + n.c.payload.size();
  for (auto& k : n.kids) at = layout1(k, at);
  n.size = at - offset;
  return at;
}

void encode1(const Node& n, Bytes& out) {
  Enc e;
  if (n.form == 0) e.u32(n.size).raw(n.c.type);
  if (n.form == 1) e.u32(1).raw(n.c.type).u64(n.size);
  if (n.form == 2) e.u32(0).raw(n.c.type);
  out.insert(out.end(), e.b.begin(), e.b.end());
  out.insert(out.end(), n.c.payload.begin(), n.c.payload.end());
  for (const auto& k : n.kids) encode1(k, out);
}

void collect(Node& n, Node* parent, unsigned depth, bool last, std::vector<Ref>& out) {
  out.push_back({&n, parent, depth, last});
  for (auto& k : n.kids) collect(k, &n, depth + 1, last && &k == &n.kids.back(), out);
}

}  // namespace

void quicktime_metas(std::vector<Node>& f, Rng& r);

std::vector<Node> gen_forest(Rng& r, const TreeOptions& o) {
  std::vector<Node> f;
  unsigned budget = static_cast<unsigned>(r.range(1, o.max_nodes));
  TreeOptions q = o;
  if (r.chance(1, 50)) {  // one deep chain
    q.max_depth = 60;
    Node chain;
    chain.c = gen_kind("container", r);
    Node* at = &chain;
    const std::size_t depth = r.range(20, 58);
    for (std::size_t i = 0; i < depth; ++i) {
      Node k;
      do k.c = r.flag() ? gen_kind("container", r) : gen_kind("meta", r);
      while (!k.c.container);
      if (r.chance(1, 8)) at->kids.push_back(gen_node(r, o, 0, budget = 1, at));
      at->kids.push_back(k);
      at = &at->kids.back();
    }
    f.push_back(chain);
    q = o;
  }
  while (budget > 0) {
    --budget;
    f.push_back(gen_node(r, q, 0, budget, nullptr));
  }
  if (o.forms && r.chance(1, 3)) {  // the rightmost path may extend to the end of the file
    Node* n = &f.back();
    while (true) {
      if (r.flag()) n->form = 2;
      if (n->kids.empty()) break;
      n = &n->kids.back();
    }
  }
  if (o.quicktime) quicktime_metas(f, r);
  layout(f, 0);
  return f;
}

std::uint64_t layout(std::vector<Node>& f, std::uint64_t offset) {
  for (auto& n : f) offset = layout1(n, offset);
  return offset;
}

Bytes encode(const std::vector<Node>& f) {
  Bytes out;
  for (const auto& n : f) encode1(n, out);
  return out;
}

std::string dump_of(const Node& n, bool read, unsigned depth) {
  std::string s = std::string(2 * depth, ' ') + "[" + type_text(n.c.type) + "]" +
                  strf(" Offset=%llu Size=%llu", static_cast<unsigned long long>(n.offset),
                       static_cast<unsigned long long>(n.size));
  const std::string& d = read && !n.c.read_dump.empty() ? n.c.read_dump : n.c.dump;
  if (!d.empty()) s += " " + d;
  for (const auto& k : n.kids) s += "\n" + dump_of(k, read, depth + 1);
  return s;
}

void quicktime_metas(std::vector<Node>& f, Rng& r) {
  for (auto& n : f) {
    if (n.c.type == t4("meta") && !n.kids.empty() && n.kids[0].form != 2 && r.chance(1, 3)) n.c.payload.clear();
    if (n.c.type == t4("hdlr") && n.c.variant.rfind("hdlr", 0) == 0 && r.chance(1, 3)) {  // the name is preceded by its length
      const std::string name = r.flag() ? std::string(r.range(1, 255), static_cast<char>(r.range('a', 'z'))) : text(r, 30);
      const std::uint32_t pre = r.flag() ? 0x6d686c72U : static_cast<std::uint32_t>(r.range(1, 0xffffffff));
      const Type4 ht = t4("vide");
      Enc e;
      e.full(n.c.version, n.c.flags).u32(pre).raw(ht).u32(0).u32(0).u32(0).u8(name.size()).raw(Bytes(name.begin(), name.end()));
      const std::size_t at = n.c.dump.find(" PreDefined=");
      n.c.dump = n.c.dump.substr(0, at) + strf(" PreDefined=%u HandlerType=\"vide\" Name=\"", pre) + name + "\"";
      n.c.read_dump.clear();
      n.c.payload = e.b;
      n.c.variant = "counted";
    }
    quicktime_metas(n.kids, r);
  }
}

std::size_t count_nodes(const std::vector<Node>& f) {
  std::size_t n = f.size();
  for (const auto& k : f) n += count_nodes(k.kids);
  return n;
}

std::string shape(const std::vector<Node>& f) {
  std::string s;
  for (const auto& n : f) {
    s += as_string(n.c.type);
    s += static_cast<char>('0' + n.form);
    if (!n.kids.empty()) s += "(" + shape(n.kids) + ")";
  }
  return s;
}

std::vector<Ref> refs(std::vector<Node>& f) {
  std::vector<Ref> v;
  for (auto& n : f) collect(n, nullptr, 0, &n == &f.back(), v);
  return v;
}

Dump read_and_dump(const Bytes& file) {
  std::istringstream is(std::string(file.begin(), file.end()));
  std::ostringstream os;
  std::streambuf* old = std::cout.rdbuf(os.rdbuf());
  Dump d{true, "", ""};
  try {
    mp4::reader::SimpleReader reader(is);
    reader.read();
  } catch (const std::exception& e) {
    d.ok = false;
    d.error = e.what();
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  d.text = os.str();
  return d;
}

}  // namespace vh
