// C07 layout of written trees, C19 dumps, C21 damaged structure, C24 (within files) unknown boxes.
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <ostream>

#include "tree.hpp"
#include "gen_util.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "sparse.hpp"

extern char** environ;

namespace vh {
namespace {

// a box with a payload too large to keep: only its size matters
class HugeBox : public mp4::Box {
 public:
  std::uint64_t n;
  explicit HugeBox(std::uint64_t size) : n(size) { m_type = mp4::BoxType("mdat"); }
  std::string toStringOnlyData() const override { return "huge"; }
  std::uint64_t getDataSize() const override { return n; }
  std::uint64_t readData(std::istream&) override { return 0; }
  std::uint64_t writeData(std::ostream& os) const override {
    const std::uint64_t at = static_cast<std::uint64_t>(os.tellp());
    if (n) {
      os.seekp(static_cast<std::streamoff>(at + n - 1));
      os.put('E');
    }
    return 8 * n;
  }
};

struct Made {
  const Node* node;
  mp4::BoxInfo* info;
  unsigned depth;
  std::string path;
};

mp4::BoxInfo* build(const Node& n, mp4::BoxInfo* parent, unsigned depth, const std::string& path, std::vector<Made>& out) {
  auto info = new mp4::BoxInfo({.parent = parent, .box = n.c.make()});
  const std::string p = path + "/" + type_text(n.c.type);
  out.push_back({&n, info, depth, p});
  for (const auto& k : n.kids) build(k, info, depth + 1, p, out);
  return info;
}

// own layout rule: the large header is used only when the size needs it
std::uint64_t relayout(Node& n, std::uint64_t offset, const std::function<std::uint64_t(const Node&)>& own) {
  for (n.form = 0; n.form < 2; ++n.form) {
    n.offset = offset;
    n.header = n.form ? 16 : 8;
    std::uint64_t at = offset + n.header + own(n);
    for (auto& k : n.kids) at = relayout(k, at, own);
    n.size = at - offset;
    if (n.form || n.size <= 0xffffffffULL) return at;
  }
  return 0;
}

std::string shorten(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

void c07(Ctx& ctx, Rng& r, std::uint64_t n) {
  TreeOptions o;
  o.any_parent = r.chance(1, 4);
  std::vector<Node> f;
  do f = gen_forest(r, o);
  while (f.empty());
  Node root = f[0];
  for (auto& x : f)
    if (x.kids.size() > root.kids.size()) root = x;
  // sometimes one leaf is so large that its header, and those of its ancestors, need 64 bits
  const bool huge = n % 3 == 0 && root.c.container;
  Node* big = nullptr;
  std::uint64_t huge_size = 0;
  const std::uint64_t start = r.chance(1, 3) ? 0 : r.chance(1, 4) ? r.edge(40) : r.below(5000);
  if (huge) {
    Node m;
    m.c.variant = "huge";
    m.c.type = t4("mdat");
    m.c.dump = "huge";
    Node* p = &root;
    while (!p->kids.empty() && r.chance(1, 2)) {
      Node* c = &p->kids[r.below(p->kids.size())];
      if (!c->c.container) break;
      p = c;
    }
    const auto at = p->kids.begin() + static_cast<long>(r.below(p->kids.size() + 1));
    big = &*p->kids.insert(at, m);
    const std::uint64_t lim = 0x100000000ULL;
    switch (r.below(3)) {
      case 0: huge_size = lim - 8 - r.below(5) + r.below(5); break;                          // around its own limit
      case 1: {                                                                              // around the root's limit
        layout(f, 0);
        const auto zero = [&](const Node& q) { return q.c.variant == "huge" ? 0 : q.c.payload.size(); };
        relayout(root, 0, zero);
        huge_size = lim - root.size - 4 + r.below(9);
        break;
      }
      default: huge_size = lim + r.edge(36);
    }
    big->c.make = [huge_size]() -> mp4::Box* { return new HugeBox(huge_size); };
  }
  const auto own = [&](const Node& q) { return q.c.variant == "huge" ? huge_size : q.c.payload.size(); };
  std::vector<Made> made;
  std::unique_ptr<mp4::BoxInfo> info(build(root, nullptr, 0, "", made));
  ctx.count("trees");
  ctx.count("boxes", made.size());
  for (const auto& m : made) ctx.maxi("depth", m.depth);
  std::vector<Node> one;
  one.push_back(root);
  ctx.seen(shape(one) + strf("%llu", static_cast<unsigned long long>(huge_size)));
  const auto verify = [&](std::uint64_t at, const char* when) {
    const std::uint64_t want_end = relayout(root, at, own);
    // `made` refers to nodes of `root`
    std::uint64_t header_large = 0;
    for (const auto& m : made) {
      const Node& q = *m.node;
      mp4::Box* b = m.info->getBox();
      const std::string head = "[" + type_text(q.c.type) + "]" + strf(" Offset=%llu Size=%llu", static_cast<unsigned long long>(q.offset),
                                                                       static_cast<unsigned long long>(q.size));
      header_large += q.header == 16;
      const std::string got = b->toString();
      ctx.check(got.compare(0, head.size(), head) == 0 && (got.size() == head.size() || got[head.size()] == ' '), "placement", [&] {
        return strf("%s: box %s is placed as \"%s\", expected \"%s\" in %s", when, m.path.c_str(), got.substr(0, head.size() + 8).c_str(),
                    head.c_str(), shorten(shape(one)).c_str());
      });
      ctx.check(m.info->getSize() == q.size && b->getSize() == q.size && b->getHeaderSize() == q.header, "size", [&] {
        return strf("%s: box %s has size %llu header %llu, expected %llu and %llu", when, m.path.c_str(),
                    static_cast<unsigned long long>(b->getSize()), static_cast<unsigned long long>(b->getHeaderSize()),
                    static_cast<unsigned long long>(q.size), static_cast<unsigned long long>(q.header));
      });
    }
    if (header_large) ctx.count("large_headers", header_large);
    for (const auto& m : made)
      if (!m.node->kids.empty() && own(*m.node) >= 256) ctx.count("parents_with_256_bytes_of_data");
    return want_end;
  };
  const std::uint64_t end_ret = info->adjustOffsetAndSize(start);
  std::uint64_t end = verify(start, "first layout");
  ctx.check(end_ret == end - start, "layout-result", [&] {
    return strf("adjustOffsetAndSize returned %llu for %llu bytes", static_cast<unsigned long long>(end_ret),
                static_cast<unsigned long long>(end - start));
  });
  for (const auto& m : made) {
    std::string p;
    for (const auto& t : m.info->getPath()) p += "/" + t.toString();
    ctx.check(p == m.path, "path", [&] { return "path " + p + " of box " + m.path; });
  }
  std::uint64_t at = start;
  if (r.chance(1, 3)) {  // laid out again somewhere else
    at = r.below(1000);
    info->adjustOffsetAndSize(at);
    end = verify(at, "second layout");
    ctx.count("relayouts");
  }
  // the payload shrinks or grows, and grows again, the headers follow
  for (unsigned k = huge ? static_cast<unsigned>(r.below(4)) : 0; k-- > 0;) {
    const std::uint64_t was = huge_size;
    switch (r.below(5)) {
      case 0: huge_size = r.below(100); break;
      case 1: huge_size = 0x100000000ULL + r.below(100); break;
      case 2: huge_size = 0x100000000ULL - 8 - r.below(3000); break;
      case 3: huge_size = 0x80000000ULL + r.below(0x7fffff00); break;
      default: huge_size = r.edge(36);
    }
    for (const auto& m : made)
      if (m.node->c.variant == "huge") static_cast<HugeBox*>(m.info->getBox())->n = huge_size;
    info->adjustOffsetAndSize(at);
    end = verify(at, "layout after a size change");
    ctx.count("relayouts_other_size");
    if (was >= 0x100000000ULL && huge_size < 0xffffff00ULL) ctx.count("relayouts_back_to_compact");
  }
  if (r.chance(1, 3)) {  // boxes added after the layout
    std::vector<Node*> all;
    std::vector<Ref> rf;
    Node* target = &root;
    if (target->c.container) {
      const Node extra = [&] {
        Node k;
        k.c = gen_kind("opaque", r);
        return k;
      }();
      // the nodes move when the vector grows: rebuild the association by order
      target->kids.push_back(extra);
      std::vector<Node> tmp;
      tmp.push_back(root);
      std::size_t i = 0;
      auto added = new mp4::BoxInfo({.parent = info.get(), .box = extra.c.make()});
      std::vector<Made> m2;
      std::function<void(Node&, const std::string&)> walk = [&](Node& q, const std::string& path) {
        const std::string p = path + "/" + type_text(q.c.type);
        mp4::BoxInfo* bi = &q == &root.kids.back() ? added : made[i++].info;
        m2.push_back({&q, bi, 0, p});
        for (auto& k : q.kids) walk(k, p);
      };
      walk(root, "");
      made = m2;
      info->adjustOffsetAndSize(at);
      end = verify(at, "layout after adding a box");
      ctx.count("relayouts_more_boxes");
    }
  }
  // written, it is exactly the encoding of that layout
  SparseBuf sb;
  std::ostream os(&sb);
  const bool file_offset_ok = at < (1ULL << 50);
  if (file_offset_ok) {
    info->write(os);
    std::function<void(const Node&)> compare = [&](const Node& q) {
      Enc e;
      if (q.header == 8)
        e.u32(q.size).raw(q.c.type);
      else
        e.u32(1).raw(q.c.type).u64(q.size);
      if (q.c.variant != "huge") e.raw(q.c.payload);
      const Bytes got = sb.get(q.offset, e.b.size());
      ctx.check(got == e.b, "bytes", [&] {
        return "written tree: box " + as_string(q.c.type) + strf(" at %llu: ", static_cast<unsigned long long>(q.offset)) + diff_bytes(got, e.b);
      });
      for (const auto& k : q.kids) compare(k);
    };
    compare(root);
    ctx.check(sb.end == end, "end", [&] {
      return strf("the tree ends at %llu in the stream, expected %llu", static_cast<unsigned long long>(sb.end),
                  static_cast<unsigned long long>(end));
    });
  }
  if (n < 3) ctx.sample(shorten(shape(one)) + strf(" at %llu", static_cast<unsigned long long>(start)));
}

void c19(Ctx& ctx, Rng& r, std::uint64_t n) {
  TreeOptions o;
  o.forms = o.unknown = o.quicktime = true;
  o.max_nodes = r.chance(1, 30) ? 300 : 30;
  auto f = gen_forest(r, o);
  const Bytes file = encode(f);
  ctx.count("files");
  ctx.count("boxes", count_nodes(f));
  for (const auto& q : refs(f)) {
    ctx.maxi("depth", q.depth);
    if (q.node->c.variant == "counted") ctx.count("counted_names");
    ctx.count(q.node->form == 0 ? "headers_32" : q.node->form == 1 ? "headers_64" : "headers_eof");
  }
  ctx.seen(shape(f) + std::to_string(fnv(file.data(), file.size())));
  std::string want;
  for (const auto& q : f) want += dump_of(q, true) + "\n";
  const Dump d = read_and_dump(file);
  ctx.check(d.ok, "refused", [&] { return "a well-formed file is refused: " + d.error + " in " + shorten(shape(f)); });
  if (d.ok) ctx.check(d.text == want, "dump", [&] { return diff_text(d.text, want) + " in " + shorten(shape(f)); });
  // through a stream that throws where others only keep a note of it, with formatting left over from other use
  if (n % 3 == 0) {
    std::istringstream is(std::string(file.begin(), file.end()));
    is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    is >> std::hex >> std::noskipws;
    if (r.flag()) is.seekg(static_cast<std::streamoff>(r.below(file.size() + 1)));
    std::ostringstream os;
    std::streambuf* old = std::cout.rdbuf(os.rdbuf());
    const auto flags = std::cout.flags();
    std::cout << std::hex << std::showbase << std::uppercase << std::left;
    std::string error;
    try {
      mp4::reader::SimpleReader reader(is);
      reader.read();
    } catch (const std::exception& e) {
      error = e.what();
    }
    std::cout.flags(flags);
    std::cout.rdbuf(old);
    ctx.count("throwing_streams");
    ctx.check(error.empty() && os.str() == want, "stream-state", [&] { return "through a stream that throws: " + error + diff_text(os.str(), want) + " in " + shorten(shape(f)); });
  }
  // the dump of a tree built from values and laid out
  if (!f[0].kids.empty() || n % 4 == 0) {
    std::vector<Made> made;
    Node root = f[0];
    bool built = true;
    std::function<void(Node&)> plain = [&](Node& q) {
      q.form = 0;
      if (q.c.type == t4("meta")) q.c.payload = Bytes(4, 0);
      if (q.c.variant == "counted") built = false;  // the library writes no such names
      if (q.c.variant == "unsupported") built = false;  // constructed unsupported boxes carry their own type
      for (auto& k : q.kids) plain(k);
    };
    plain(root);
    if (built) {
      std::vector<Node> one;
      one.push_back(root);
      const std::uint64_t at = r.below(10000);
      layout(one, at);
      std::unique_ptr<mp4::BoxInfo> info(build(one[0], nullptr, 0, "", made));
      info->adjustOffsetAndSize(at);
      const std::string got = info->toString(), exp = dump_of(one[0], false);
      ctx.count("built_trees");
      ctx.check(got == exp, "dump-built", [&] { return "tree built from values: " + diff_text(got, exp); });
    }
  }
  if (n < 2) ctx.sample(shorten(want));
}

// ---- C21 ----

struct Tool {
  int status = 0;
  std::string out, err;
};

Tool run_tool(Ctx& ctx, const std::string& file) {
  const std::string out = ctx.scratch + "/tool.out", err = ctx.scratch + "/tool.err";
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  const char* tool = std::getenv("VH_TOOL");
  std::string t = tool ? tool : "mp4-tool", a1 = "dump", a2 = "-f", a3 = file;
  char* argv[] = {t.data(), a1.data(), a2.data(), a3.data(), nullptr};
  pid_t pid = 0;
  Tool r;
  if (posix_spawn(&pid, t.c_str(), &fa, nullptr, argv, environ) != 0) {
    ctx.fail("tool", "mp4-tool can not be started: " + t);
    r.status = -1;
  } else {
    waitpid(pid, &r.status, 0);
  }
  posix_spawn_file_actions_destroy(&fa);
  const Bytes o = read_file(out), e = read_file(err);
  r.out.assign(o.begin(), o.end());
  r.err.assign(e.begin(), e.end());
  return r;
}

void judge_tool(Ctx& ctx, const std::string& path, const std::string& what, bool damaged, const std::string& want) {
  const Tool t = run_tool(ctx, path);
  ctx.count(damaged ? "tool_runs_damaged" : "tool_runs_good");
  const bool exited = WIFEXITED(t.status);
  const int code = exited ? WEXITSTATUS(t.status) : -1;
  if (damaged) {
    ctx.check(exited && code != 99, "tool-crash", [&] { return what + strf(": mp4-tool crashed (status %d): ", t.status) + t.err.substr(0, 600); });
    ctx.check(code != 0, "tool-accepts", [&] { return what + ": mp4-tool reports success"; });
    ctx.check(!exited || code == 0 || !t.err.empty() || !t.out.empty(), "tool-silent", [&] { return what + ": mp4-tool prints nothing"; });
  } else {
    ctx.check(exited && code == 0, "tool-refuses", [&] { return what + strf(": mp4-tool status %d: ", t.status) + t.err.substr(0, 600); });
    if (code == 0) ctx.check(t.out == want, "tool-dump", [&] { return what + ": dump of mp4-tool: " + diff_text(t.out, want); });
  }
}

void put(Bytes& b, std::uint64_t at, std::uint64_t v, unsigned bytes) {
  for (unsigned i = 0; i < bytes; ++i) b[at + i] = static_cast<std::uint8_t>(v >> (8 * (bytes - 1 - i)));
}

void save(const std::string& path, const Bytes& b) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
}

void c21(Ctx& ctx, Rng& r, std::uint64_t n) {
  TreeOptions o;
  o.forms = o.unknown = r.flag();
  auto f = gen_forest(r, o);
  const Bytes file = encode(f);
  auto rf = refs(f);
  bool eof_form = false;
  for (const auto& q : rf) eof_form |= q.node->form == 2;
  const std::string path = ctx.scratch + "/t.mp4";
  const bool tool = n % 16 == 0;
  std::string want;
  for (const auto& q : f) want += dump_of(q, true) + "\n";
  {
    const Dump d = read_and_dump(file);
    ctx.count("undamaged");
    ctx.check(d.ok, "refused", [&] { return "an undamaged file is refused: " + d.error + " in " + shorten(shape(f)); });
    if (tool && n % 32 == 0) {
      save(path, file);
      judge_tool(ctx, path, "undamaged file", false, want);
    }
  }
  const auto judge = [&](const std::string& kind, const Bytes& b, const std::string& what, bool with_tool) {
    ctx.count("damage." + kind);
    ctx.seen(kind + what + std::to_string(fnv(b.data(), b.size())));
    const Dump d = read_and_dump(b);
    ctx.check(!d.ok, "accepted." + kind, [&] { return what + ": accepted, in " + shorten(shape(f)); });
    if (with_tool) {
      save(path, b);
      judge_tool(ctx, path, what, true, "");
    }
  };
  std::set<std::uint64_t> ends{0};
  for (const auto& q : f) ends.insert(q.offset + q.size);
  // every header boundary and a few random places
  if (!eof_form) {
    for (int i = 0; i < 6; ++i) {
      std::uint64_t cut = r.below(file.size());
      if (i < 3) {
        const Node& q = *rf[r.below(rf.size())].node;
        const std::uint64_t c[] = {q.offset + 4, q.offset + q.header, q.offset + q.header + q.c.payload.size(), q.offset + q.size - 1, q.offset};
        cut = c[r.below(5)];
      }
      if (ends.count(cut)) continue;
      judge("truncated", Bytes(file.begin(), file.begin() + static_cast<long>(cut)),
            strf("file of %zu bytes cut at %llu", file.size(), static_cast<unsigned long long>(cut)), tool && i == 0);
    }
    // bytes that are no box after the last one
    Bytes t = file;
    const Bytes junk = r.bytes(r.range(1, 7));
    t.insert(t.end(), junk.begin(), junk.end());
    judge("trailing", t, strf("%zu bytes after the last box", junk.size()), false);
  }
  for (int i = 0; i < 5; ++i) {
    const auto& q = rf[r.below(rf.size())];
    const Node& x = *q.node;
    if (x.form == 2) continue;
    const std::uint64_t parent_end = q.parent ? q.parent->offset + q.parent->size : file.size();
    const std::uint64_t room = parent_end - x.offset;
    const std::string at = strf("size of %s at %llu depth %u ", as_string(x.c.type).c_str(), static_cast<unsigned long long>(x.offset), q.depth);
    {  // smaller than its header
      Bytes t = file;
      const std::uint64_t v = x.form ? r.below(16) : r.range(2, 7);
      put(t, x.offset + (x.form ? 8 : 0), v, x.form ? 8 : 4);
      judge("small", t, at + strf("set to %llu", static_cast<unsigned long long>(v)), tool && i == 0);
    }
    {  // past its parent
      Bytes t = file;
      std::uint64_t v = room + (r.flag() ? 1 : r.range(1, 500));
      if (r.chance(1, 3)) v = x.form ? ~0ULL - r.below(40) : 0xffffffffULL - r.below(3);
      if (x.form && r.chance(1, 4)) v = 0x8000000000000000ULL - 2 + r.below(4);
      if (r.chance(1, 3)) {  // what it was and one more of its upper bits
        const unsigned top = x.form ? 64 : 32;
        const std::uint64_t bit = 1ULL << (x.form && r.flag() ? 31 + r.below(33) : r.below(top));
        if (!(x.size & bit) && x.size + bit > room) v = x.size + bit;
      }
      put(t, x.offset + (x.form ? 8 : 0), v, x.form ? 8 : 4);
      judge("past-parent", t, at + strf("set to %llu of %llu", static_cast<unsigned long long>(v), static_cast<unsigned long long>(room)),
            tool && i == 1);
    }
    if (!q.last && x.form == 0 && q.parent) {  // to the end of the file, beyond its parent
      bool parents_last = true;
      for (const auto& z : rf)
        if (z.node == q.parent) parents_last = z.last;
      if (!parents_last) {
        Bytes t = file;
        put(t, x.offset, 0, 4);
        judge("eof-inside", t, at + "set to 0", false);
      }
    }
    if (!x.kids.empty()) {  // the parent shrinks under its last child
      Bytes t = file;
      const std::uint64_t v = x.size - r.range(1, x.kids.back().size - 1);
      put(t, x.offset + (x.form ? 8 : 0), v, x.form ? 8 : 4);
      judge("shrunk", t, at + strf("set to %llu of %llu", static_cast<unsigned long long>(v), static_cast<unsigned long long>(x.size)), false);
    }
  }
  // lists that claim more elements than their box holds
  for (const auto& q : rf) {
    const Node& x = *q.node;
    for (const auto& c : x.c.counts) {
      if (!c.element || !r.chance(1, 2)) continue;
      const std::uint64_t rest = x.c.payload.size() - c.offset - c.bytes;
      const std::uint64_t least = rest / c.element + 1;
      const std::uint64_t top = c.bytes >= 8 ? ~0ULL : (1ULL << (8 * c.bytes)) - 1;
      if (least > top) continue;
      const std::uint64_t v = r.flag() ? least : r.chance(1, 3) ? top : least + r.below(top - least + 1);
      Bytes t = file;
      put(t, x.offset + x.header + c.offset, v, c.bytes);
      judge("count", t, strf("element count of %s (%s) set to %llu with %llu bytes left", as_string(x.c.type).c_str(), x.c.variant.c_str(),
                             static_cast<unsigned long long>(v), static_cast<unsigned long long>(rest)),
            false);
    }
  }
  if (n % 400 == 0) {
    judge_tool(ctx, ctx.scratch + "/no-such-file", "missing file", true, "");
    judge_tool(ctx, ctx.scratch, "a directory", true, "");
  }
  if (n < 3) ctx.sample(shorten(shape(f)));
}

// C24: unknown boxes anywhere leave their neighbours alone
void c24_files(Ctx& ctx, Rng& r, std::uint64_t n) {
  TreeOptions o;
  o.forms = true;
  auto f = gen_forest(r, o);
  const Dump before = read_and_dump(encode(f));
  ctx.check(before.ok, "refused", [&] { return "a well-formed file is refused: " + before.error; });
  // insert unknown boxes at random places
  const std::size_t k = r.range(1, 6);
  std::size_t inserted = 0;
  for (std::size_t i = 0; i < k; ++i) {
    std::vector<std::vector<Node>*> lists{&f};
    for (auto& q : refs(f))
      if (q.node->c.container) lists.push_back(&q.node->kids);
    auto& l = *lists[r.below(lists.size())];
    Node u;
    std::optional<BigLists> big;
    if (r.chance(1, 60)) {
      big.emplace();
      ctx.count("unknown_boxes_over_64k");
    }
    u.c = gen_unsupported(r);
    u.form = r.chance(1, 4);
    const std::size_t pos = r.below(l.size() + 1);
    // before a box that extends to the end of the file, never after it
    if (pos == l.size() && !l.empty() && l.back().form == 2) continue;
    if (pos == l.size()) {
      bool under_eof = false;
      for (auto& q : refs(f)) under_eof |= q.last && q.node->form == 2;
      if (under_eof) continue;
    }
    l.insert(l.begin() + static_cast<long>(pos), u);
    ++inserted;
  }
  layout(f, 0);
  const Bytes file = encode(f);
  std::string want;
  for (const auto& q : f) want += dump_of(q, true) + "\n";
  const Dump d = read_and_dump(file);
  ctx.count("files_with_unknown_boxes");
  ctx.count("unknown_boxes", inserted);
  ctx.seen(shape(f));
  ctx.check(d.ok, "unknown-refused", [&] { return "a file with unknown boxes is refused: " + d.error + " in " + shorten(shape(f)); });
  if (d.ok) ctx.check(d.text == want, "unknown-dump", [&] { return diff_text(d.text, want) + " in " + shorten(shape(f)); });
  if (n < 2) ctx.sample(shorten(shape(f)));
}

Register r7("C07", c07), r19("C19", c19), r21("C21", c21), r24("C24F", c24_files);

}  // namespace
}  // namespace vh
