// Random trees of well-formed boxes, with their own layout and encoding.
#pragma once
#include <string>
#include <vector>

#include "gen.hpp"

namespace vh {

struct Node {
  BoxCase c;
  std::vector<Node> kids;
  unsigned form = 0;  // 0 small header, 1 large header, 2 to the end of the file
  std::uint64_t offset = 0, size = 0, header = 8;
};

struct TreeOptions {
  bool forms = false;        // headers other than the compact one
  bool unknown = false;      // unsupported boxes
  bool quicktime = false;    // meta boxes without version and flags (readable, not what the library writes)
  bool any_parent = false;   // children under boxes that are no containers (writable, not readable)
  unsigned max_nodes = 30;
  unsigned max_depth = 8;
};

std::vector<Node> gen_forest(Rng& r, const TreeOptions& o);
// assigns offsets, sizes and header lengths; returns the end offset
std::uint64_t layout(std::vector<Node>& forest, std::uint64_t offset);
Bytes encode(const std::vector<Node>& forest);
// the dump: one line per box; `read` as after reading the bytes, else as constructed
std::string dump_of(const Node& n, bool read, unsigned depth = 0);
std::size_t count_nodes(const std::vector<Node>& forest);
std::string shape(const std::vector<Node>& forest);
// all nodes in file order with their depth
struct Ref {
  Node* node;
  Node* parent;
  unsigned depth;
  bool last;  // on the rightmost path, its end is the end of the file
};
std::vector<Ref> refs(std::vector<Node>& forest);

struct Dump {
  bool ok;
  std::string text, error;
};
Dump read_and_dump(const Bytes& file);  // SimpleReader::read with std::cout captured

}  // namespace vh
