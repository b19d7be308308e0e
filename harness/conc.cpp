// C18 independent objects used by several threads at once (ThreadSanitizer), compared with what each gives alone.
#include <fmt/format.h>
#include <sched.h>
#include <unistd.h>

#include <atomic>
#include <filesystem>
#include <iostream>
#include <locale>
#include <memory>
#include <sstream>
#include <thread>

#include "mutate.hpp"
#include "scenario.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box/stts.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/version.hpp"
#include "sparse.hpp"
#include "tree.hpp"

namespace vh {
namespace {

// std::cout of each thread
thread_local std::string t_out;
class ThreadOut : public std::streambuf {
 protected:
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    t_out.append(p, static_cast<std::size_t>(n));
    return n;
  }
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) t_out.push_back(static_cast<char>(c));
    return traits_type::not_eof(c);
  }
};

// injected delays
thread_local std::uint64_t t_noise = 1;
void noise() {
  t_noise = t_noise * 6364136223846793005ULL + 1442695040888963407ULL;
  const unsigned k = static_cast<unsigned>(t_noise >> 59);
  if (k == 0) ::sched_yield();
  if (k == 1) ::usleep(static_cast<unsigned>(t_noise >> 40) % 50);
}
class NoisyOut : public MemBuf {
 protected:
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    noise();
    return MemBuf::xsputn(p, n);
  }
};

struct Job {
  std::vector<BoxCase> boxes;
  std::vector<Spec> specs;
  std::vector<std::vector<Node>> trees;
  std::vector<Bytes> files;
  std::vector<std::uint64_t> times;
  std::uint64_t noise = 1;
};

struct Product {
  std::vector<std::string> texts;
  std::vector<Bytes> bytes;
  std::vector<Bytes> recordings;
};

mp4::BoxInfo* build(const Node& n, mp4::BoxInfo* parent) {
  auto info = new mp4::BoxInfo({.parent = parent, .box = n.c.make()});
  for (const auto& k : n.kids) build(k, info);
  return info;
}

void boxes(const Job& j, Product& p) {
  mp4::BoxMap map;
  mp4::register_box_map(&map);
  for (const auto& c : j.boxes) {
    noise();
    std::unique_ptr<mp4::Box> b(c.make());
    p.texts.push_back(b->toStringOnlyData());
    p.bytes.push_back(lib_write_data(*b));
    std::unique_ptr<mp4::Box> d(map.getBoxInstance(mp4::BoxType(c.type)));
    std::istringstream is(std::string(c.payload.begin(), c.payload.end()));
    try {
      d->readData(is);
      p.texts.push_back(d->toStringOnlyData());
      d->setFlags(0x123456);
      d->addFlag(1);
      d->removeFlag(2);
      p.texts.push_back(std::to_string(d->getFlags()));
    } catch (const std::exception& e) {
      p.texts.push_back(e.what());
    }
    p.texts.push_back(d->getType().toString());
  }
}

void recordings(const Job& j, Product& p) {
  for (const auto& s : j.specs) {
    NoisyOut buf;
    std::ostream os(&buf);
    try {
      execute(s, os, [](const char*, mp4::writer::Writer*) { noise(); });
      p.recordings.push_back(buf.data);
    } catch (const std::exception& e) {
      p.recordings.push_back({});
      p.texts.push_back(std::string("refused: ") + e.what());
    }
  }
}

void reads(const Job& j, Product& p) {
  for (const auto& f : j.files) {
    noise();
    t_out.clear();
    std::istringstream is(std::string(f.begin(), f.end()));
    try {
      mp4::reader::SimpleReader reader(is);
      reader.read();
    } catch (const std::exception& e) {
      t_out += std::string(" exception ") + e.what();
    }
    p.texts.push_back(t_out);
  }
}

void trees(const Job& j, Product& p) {
  for (const auto& f : j.trees) {
    noise();
    std::unique_ptr<mp4::BoxInfo> info(build(f[0], nullptr));
    info->adjustOffsetAndSize(7);
    p.texts.push_back(info->toString());
    info->adjustOffsetAndSize(0);
    NoisyOut buf;
    std::ostream os(&buf);
    info->write(os);
    p.bytes.push_back(buf.data);
  }
}

void times(const Job& j, Product& p) {
  for (auto t : j.times) {
    noise();
    p.texts.push_back(mp4::time::format_epoch_19040101(t));
    p.texts.push_back(std::to_string(mp4::time::convert_to_epoch_19040101(t & 0xffffffff)));
    std::stringstream ss;
    {
      mp4::bitio::Writer w(ss);
      mp4::bitio::write_uint<std::uint64_t>(&w, t, 64);
      mp4::bitio::write_string(&w, "text");
    }
    mp4::bitio::Reader rd(ss);
    std::uint64_t v = 0;
    mp4::bitio::read_uint<std::uint64_t>(&rd, &v, 64);
    p.texts.push_back(std::to_string(v));
    std::vector<mp4::box::SttsEntry> e;
    mp4::track::make_stts_entries(&e, {static_cast<std::uint32_t>(t), static_cast<std::uint32_t>(t), 3});
    p.texts.push_back(std::to_string(e.size()));
  }
}

using Phase = void (*)(const Job&, Product&);
const Phase kPhases[] = {boxes, recordings, reads, trees, times};

// std::regex goes through a table in libstdc++'s ctype facet that is filled without synchronisation, always with the same
// values. That is the standard library's own affair; it is filled here, before any thread exists.
void warm_ctype() {
  const auto& f = std::use_facet<std::ctype<char>>(std::locale());
  for (int c = 0; c < 256; ++c) {
    f.narrow(static_cast<char>(c), 0);
    f.widen(static_cast<char>(c));
  }
}

void c18(Ctx& ctx, Rng& r, std::uint64_t n) {
  warm_ctype();
  constexpr int kThreads = 5;
  Job jobs[kThreads];
  SpecOptions so;
  so.max_samples = 12;
  so.max_tracks = 4;
  const bool alike = n % 3 == 0;  // all threads do exactly the same
  const Rng seed = r;
  for (auto& j : jobs) {
    Rng q = seed;
    if (!alike) q.s = r.next();
    for (std::size_t i = 0; i < 25; ++i) {
      BoxCase c = kinds()[(n * 7 + i) % kinds().size()].gen(q);
      if (c.payload.size() < 3000) j.boxes.push_back(c);
    }
    for (int i = 0; i < 4; ++i) {
      Spec s = gen_spec(q, so);
      s.faststart = i & 1;
      s.path_template = ctx.scratch + "/mdatXXXXXX";
      j.specs.push_back(s);
    }
    for (int i = 0; i < 4; ++i) {
      TreeOptions o;
      o.forms = o.unknown = true;
      o.max_nodes = 12;
      auto f = gen_forest(q, o);
      Bytes b = encode(f);
      if (b.size() > 30000) continue;
      if (i == 3) mutate(q, b, 2);
      tame_trun(b, true);
      j.files.push_back(b);
    }
    for (int i = 0; i < 3; ++i) {
      TreeOptions o;
      o.max_nodes = 10;
      auto f = gen_forest(q, o);
      if (!f.empty() && encode(f).size() < 30000) j.trees.push_back(f);
    }
    for (int i = 0; i < 20; ++i) j.times.push_back(q.flag() ? q.edge(32) : q.next() >> 30);
    j.noise = q.next();
  }
  static ThreadOut out;
  std::streambuf* old = std::cout.rdbuf(&out);
  Product together[kThreads];
  std::string escaped[kThreads];
  // the order of the phases differs between cases, so that each comes first in some process
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < std::size(kPhases); ++i) order.push_back((i + n / 2) % std::size(kPhases));
  std::atomic<int> arrived{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < kThreads; ++i) {
    ts.emplace_back([&, i] {
      t_noise = jobs[i].noise;
      try {
        int phase = 0;
        for (auto k : order) {
          // all threads enter the phase together
          ++phase;
          // relaxed: the barrier must not order what the threads do to each other
          arrived.fetch_add(1, std::memory_order_relaxed);
          while (arrived.load(std::memory_order_relaxed) < phase * kThreads) ::sched_yield();
          kPhases[k](jobs[i], together[i]);
        }
      } catch (const std::exception& e) {
        escaped[i] = e.what();
        arrived.fetch_add(1000, std::memory_order_relaxed);
      }
    });
  }
  for (auto& t : ts) t.join();
  for (int i = 0; i < kThreads; ++i) {
    ctx.check(escaped[i].empty(), "exception", [&] { return "a thread ended with: " + escaped[i]; });
    if (!escaped[i].empty()) continue;
    Product alone;
    for (auto k : order) kPhases[k](jobs[i], alone);
    const Product& t = together[i];
    ctx.check(t.texts.size() == alone.texts.size() && t.bytes.size() == alone.bytes.size() && t.recordings.size() == alone.recordings.size(), "count",
              [&] { return std::string("a thread produced another number of results than alone"); });
    for (std::size_t k = 0; k < t.texts.size() && k < alone.texts.size(); ++k)
      ctx.check(t.texts[k] == alone.texts[k], "text", [&] { return "text differs from the one produced alone: " + diff_text(t.texts[k], alone.texts[k]); });
    for (std::size_t k = 0; k < t.bytes.size() && k < alone.bytes.size(); ++k)
      ctx.check(t.bytes[k] == alone.bytes[k], "bytes", [&] { return "bytes differ from those produced alone: " + diff_bytes(t.bytes[k], alone.bytes[k]); });
    for (std::size_t k = 0; k < t.recordings.size() && k < alone.recordings.size(); ++k) {
      const Bytes &a = t.recordings[k], &b = alone.recordings[k];
      bool same = a == b;
      if (!same && a.size() == b.size()) {
        try {
          same = normalised(a, demux(source_of(a))) == normalised(b, demux(source_of(b)));
        } catch (const std::exception&) {
        }
      }
      ctx.check(same, "recording", [&] { return "a recording differs from the one made alone: " + diff_bytes(a, b) + " | " + summary(jobs[i].specs[k]); });
      ctx.count("recordings");
    }
    ctx.count("threads");
    ctx.count("texts", t.texts.size());
    ctx.seen(std::to_string(fnv(fmt::format("{}", fmt::join(t.texts, "")))) + std::to_string(i));
  }
  std::cout.rdbuf(old);
  ctx.count(alike ? "same_work" : "different_work");
  if (n < 3) ctx.sample(fmt::format("{} threads, {} texts, {} recordings each, {}", kThreads, together[0].texts.size(), together[0].recordings.size(),
                                    alike ? "same work" : "different work"));
}

Register reg("C18", c18);

}  // namespace
}  // namespace vh
