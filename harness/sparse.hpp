// Seekable output stream buffer that keeps only the bytes written, wherever they are.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <map>
#include <streambuf>
#include <vector>

#include "common.hpp"

namespace vh {

class SparseBuf : public std::streambuf {
 public:
  static constexpr std::uint64_t kPage = 1 << 16;
  std::uint64_t pos = 0, end = 0, written = 0;
  std::map<std::uint64_t, Bytes> pages;

  // writes of at least so many bytes from the range [from, to) are taken to be zero except for the marks (16 bytes each)
  const char *from = nullptr, *to = nullptr;
  std::uint64_t much = 1 << 20;
  std::vector<std::uint64_t> marks;  // in the range

  static bool zero(const char* p, std::uint64_t n) { return n == 0 || (p[0] == 0 && std::memcmp(p, p + 1, n - 1) == 0); }
  void put(std::uint64_t at, const char* p, std::uint64_t n) {
    while (n) {
      const std::uint64_t pg = at / kPage, off = at % kPage, k = std::min(n, kPage - off);
      if (k == kPage && zero(p, k) && !pages.count(pg)) {  // a hole
        at += k;
        p += k;
        n -= k;
        continue;
      }
      auto& b = pages[pg];
      if (b.empty()) b.resize(kPage);
      std::copy(p, p + k, b.begin() + static_cast<long>(off));
      at += k;
      p += k;
      n -= k;
    }
  }
  Bytes get(std::uint64_t at, std::uint64_t n) const {
    Bytes out(n);
    for (std::uint64_t i = 0; i < n; ++i) {
      const auto it = pages.find((at + i) / kPage);
      if (it != pages.end()) out[i] = it->second[(at + i) % kPage];
    }
    return out;
  }

 protected:
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (static_cast<std::uint64_t>(n) >= much && p >= from && p < to) {
      for (auto m : marks)
        if (from + m >= p && from + m < p + n) put(pos + static_cast<std::uint64_t>(from + m - p), from + m, std::min<std::uint64_t>(16, static_cast<std::uint64_t>(p + n - from) - m));
    } else {
      put(pos, p, static_cast<std::uint64_t>(n));
    }
    pos += static_cast<std::uint64_t>(n);
    written += static_cast<std::uint64_t>(n);
    end = std::max(end, pos);
    return n;
  }
  int_type overflow(int_type c) override {
    const char ch = static_cast<char>(c);
    xsputn(&ch, 1);
    return traits_type::not_eof(c);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    const off_type base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? static_cast<off_type>(pos) : static_cast<off_type>(end);
    if (base + o < 0) return pos_type(off_type(-1));
    pos = static_cast<std::uint64_t>(base + o);
    return pos_type(static_cast<off_type>(pos));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

// Seekable output to memory that, like a file, may be positioned past its end.
class MemBuf : public std::streambuf {
 public:
  Bytes data;
  std::uint64_t pos = 0;

 protected:
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    const std::uint64_t k = static_cast<std::uint64_t>(n);
    if (k && pos + k > data.size()) data.resize(pos + k);
    std::copy(p, p + n, data.begin() + static_cast<long>(std::min<std::uint64_t>(pos, data.size())));
    pos += k;
    return n;
  }
  int_type overflow(int_type c) override {
    const char ch = static_cast<char>(c);
    xsputn(&ch, 1);
    return traits_type::not_eof(c);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    const off_type base = d == std::ios_base::beg ? 0 : static_cast<off_type>(d == std::ios_base::cur ? pos : data.size());
    if (base + o < 0) return pos_type(off_type(-1));
    pos = static_cast<std::uint64_t>(base + o);
    return pos_type(static_cast<off_type>(pos));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

}  // namespace vh
