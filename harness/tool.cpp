// C27 the command line tool as a process.
#include <fcntl.h>
#include <spawn.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>

#include "gen.hpp"
#include "tree.hpp"

extern char** environ;

namespace vh {
namespace {
namespace fs = std::filesystem;

struct Run {
  int code = -1;  // exit status, -1 if it ended otherwise
  int status = 0;
  std::string out, err;
};

struct Command {
  std::vector<std::string> args;
  std::map<std::string, std::string> env;
  std::string in = "/dev/null", out;  // `out` empty: a file whose contents are returned
  std::string cwd;
  bool closed_out = false, piped_in = false;
};

std::string text_of(const std::string& path) {
  const Bytes b = read_file(path);
  return std::string(b.begin(), b.end());
}

Run run(Ctx& ctx, const Command& c) {
  const std::string out = ctx.scratch + "/27.out", err = ctx.scratch + "/27.err";
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  int feed = -1;
  if (c.piped_in) {
    // small enough to fit the pipe
    int p[2];
    if (::pipe(p) != 0) throw std::runtime_error("pipe");
    const std::string t = text_of(c.in);
    const auto n = std::min<std::size_t>(t.size(), 30000);
    if (::write(p[1], t.data(), n) != static_cast<ssize_t>(n)) throw std::runtime_error("pipe");
    ::close(p[1]);
    feed = p[0];
    posix_spawn_file_actions_adddup2(&fa, feed, 0);
  } else {
    posix_spawn_file_actions_addopen(&fa, 0, c.in.c_str(), O_RDONLY, 0);
  }
  if (c.closed_out)
    posix_spawn_file_actions_addclose(&fa, 1);
  else
    posix_spawn_file_actions_addopen(&fa, 1, c.out.empty() ? out.c_str() : c.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (!c.cwd.empty()) posix_spawn_file_actions_addchdir_np(&fa, c.cwd.c_str());
  const char* t = std::getenv("VH_TOOL");
  std::string tool = t ? t : "mp4-tool";
  std::vector<std::string> args = c.args, env;
  std::vector<char*> argv{tool.data()}, envp;
  for (auto& a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  for (char** e = environ; *e; ++e) {
    const std::string s = *e;
    if (!c.env.count(s.substr(0, s.find('=')))) env.push_back(s);
  }
  for (const auto& [k, v] : c.env) env.push_back(k + "=" + v);
  for (auto& e : env) envp.push_back(e.data());
  envp.push_back(nullptr);
  Run r;
  pid_t pid = 0;
  if (posix_spawn(&pid, tool.c_str(), &fa, nullptr, argv.data(), envp.data()) != 0) throw std::runtime_error("the tool can not be started: " + tool);
  waitpid(pid, &r.status, 0);
  posix_spawn_file_actions_destroy(&fa);
  if (feed >= 0) ::close(feed);
  if (WIFEXITED(r.status)) r.code = WEXITSTATUS(r.status);
  if (c.out.empty() && !c.closed_out) r.out = text_of(out);
  r.err = text_of(err);
  return r;
}

void save(const std::string& path, const Bytes& b) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
}

std::string line(const Command& c) {
  std::string s = "mp4-tool";
  for (const auto& a : c.args) s += " '" + a + "'";
  for (const auto& [k, v] : c.env) s += " " + k + "=" + v;
  if (!c.cwd.empty()) s += " in " + c.cwd;
  return s;
}

// options in some spelling; `quiet` is set when nothing below warnings is to be logged
Command command(Rng& r, const std::string& path, bool* quiet, bool* level) {
  Command c;
  *quiet = true;
  *level = r.chance(3, 4);
  if (*level) {
    static const std::vector<std::pair<std::string, int>> levels{{"trace", 0}, {"debug", 1}, {"info", 2}, {"warn", 3}, {"error", 4}, {"critical", 5}, {"off", 6},
                                                               {"TRACE", 0}, {"Debug", 1}, {"INFO", 2}, {"Off", 6},   {"0", 0},     {"1", 1},        {"2", 2}, {"4", 4}};
    const auto& [name, l] = r.pick(levels);
    *quiet = l >= 2;
    switch (r.below(4)) {
      case 0: c.args = {"-l", name}; break;
      case 1: c.args = {"-l" + name}; break;
      case 2: c.args = {"--log-level", name}; break;
      default: c.args = {"--log-level=" + name};
    }
  }
  c.args.push_back("dump");
  switch (r.below(4)) {
    case 0: c.args.insert(c.args.end(), {"-f", path}); break;
    case 1: c.args.push_back("-f" + path); break;
    case 2: c.args.insert(c.args.end(), {"--file", path}); break;
    default: c.args.push_back("--file=" + path);
  }
  if (r.flag()) c.env["TZ"] = r.pick(std::vector<std::string>{"Asia/Tokyo", "America/New_York", "UTC", "Pacific/Chatham", ""});
  if (r.flag()) c.env["LC_ALL"] = r.pick(std::vector<std::string>{"C", "C.UTF-8", "de_DE.UTF-8", "ja_JP.UTF-8", "nowhere"});
  if (r.flag()) c.env["LANG"] = r.pick(std::vector<std::string>{"C", "tr_TR.UTF-8"});
  return c;
}

void c27(Ctx& ctx, Rng& r, std::uint64_t n) {
  TreeOptions o;
  o.forms = o.unknown = r.flag();
  auto f = gen_forest(r, o);
  Bytes file = n % 40 == 7 ? Bytes{} : encode(f);
  std::string want;
  if (!file.empty())
    for (const auto& q : f) want += dump_of(q, true) + "\n";
  static const std::vector<std::string> names{"t.mp4", "with blank.mp4", "-dash.mp4", "\xe3\x83\x86\xe3\x82\xb9\xe3\x83\x88.mp4", "no-extension", "{}.mp4", "%n%s.mp4", "a=b.mp4", "quote'\".mp4", "line\nfeed",
                                              " blank around ", "$HOME", "~", "*.mp4", "[1,2]", "a,b.mp4", "UPPER.MP4", ".hidden"};
  const std::string dir = ctx.scratch + "/d";
  fs::create_directories(dir);
  std::string path = dir + "/" + r.pick(names);
  save(path, file);
  Bytes last = file;
  const std::string real = path;
  if (r.chance(1, 5)) {
    const std::string link = dir + "/link.mp4";
    fs::remove(link);
    fs::create_symlink(path, link);
    path = link;
    ctx.count("symbolic_links");
  } else if (r.chance(1, 5)) {
    path = dir + "/../d/./" + fs::path(path).filename().string();
  }
  bool quiet = true, level = false;
  const std::string name = fs::path(path).filename().string();
  // the dump
  for (int k = 0; k < 3; ++k) {
    Command c = command(r, path, &quiet, &level);
    if (k == 1 && r.flag()) {
      c = command(r, r.flag() ? name : "./" + name, &quiet, &level);
      c.cwd = dir;
      ctx.count("relative_names");
    }
    if (k == 2 && r.flag()) {
      c.in = real;
      path = "/dev/stdin";
      c = command(r, path, &quiet, &level);
      c.in = real;
      ctx.count("standard_input");
    }
    const Run t = run(ctx, c);
    ctx.count("dumps");
    if (!quiet) ctx.count("dumps_with_traces");
    ctx.check(t.code == 0, "status", [&] { return line(c) + strf(": status %d: ", t.status) + t.err.substr(0, 600); });
    if (t.code == 0) {
      ctx.check(t.out == want, "dump", [&] { return line(c) + ": the dump differs: " + (t.out.size() < 3000 && want.size() < 3000 ? t.out + " instead of " + want : "long"); });
      ctx.check(!quiet || t.err.empty(), "noise", [&] { return line(c) + ": said to the standard error: " + t.err.substr(0, 300); });
      ctx.check(quiet || !t.err.empty(), "no-trace", [&] { return line(c) + ": said nothing to the standard error"; });
      if (!quiet) ctx.count("traced_bytes", t.err.size());
    }
  }
  path = real;
  // no room for the dump
  if (!want.empty() && n % 2 == 0) {
    Command c = command(r, path, &quiet, &level);
    if (r.chance(1, 3)) c.closed_out = true;
    else c.out = "/dev/full";
    const Run t = run(ctx, c);
    ctx.count("full");
    ctx.check(t.code > 0 && t.code != 99, "unwritten", [&] {
      return line(c) + strf(": the dump could not be written (%s), status %d: ", c.closed_out ? "closed" : "full", t.status) + t.err.substr(0, 600);
    });
  }
  // damage
  {
    Bytes bad = file;
    std::string what;
    switch (file.empty() ? 2 : r.below(4)) {
      case 0: {
        bad.resize(file.size() - r.range(1, std::min<std::size_t>(7, file.size() - 1)));
        what = "cut";
        const Dump d = read_and_dump(bad);
        if (d.ok) what.clear();
        break;
      }
      case 1: bad.insert(bad.end(), r.range(1, 7), 0); what = "trailing bytes"; if (read_and_dump(bad).ok) what.clear(); break;
      case 2: what = "missing"; break;
      default: what = "directory";
    }
    if (!what.empty()) {
      std::string p = path;
      if (what == "missing") p = dir + "/none";
      else if (what == "directory") p = dir;
      else save(p, last = bad);
      bool muted = false;
      Command c = command(r, p, &quiet, &level);
      for (std::size_t i = 0; i < c.args.size(); ++i)
        for (const char* m : {"critical", "off", "Off"}) muted |= c.args[i].find(m) != std::string::npos && c.args[i].find(p) == std::string::npos;
      if (what == "directory" ? false : r.chance(1, 6) && !bad.empty() && what != "missing") {
        c = command(r, "/dev/stdin", &quiet, &level);
        c.in = p;
        c.piped_in = true;
        muted = true;
        what = "piped, " + what;
      }
      const Run t = run(ctx, c);
      ctx.count("refused." + what);
      ctx.check(t.code > 0 && t.code != 99, "accepted", [&] { return line(c) + " (" + what + strf("): status %d: ", t.status) + t.err.substr(0, 600); });
      ctx.check(t.out.empty(), "half-dump", [&] { return line(c) + " (" + what + "): printed all the same: " + t.out.substr(0, 300); });
      if (muted && what.find("piped") == std::string::npos) ctx.check(t.err.empty(), "muted", [&] { return line(c) + " (" + what + "): said all the same: " + t.err.substr(0, 300); });
      if (muted) ctx.count("refused_without_messages");
      ctx.check(muted || !t.err.empty(), "silent", [&] { return line(c) + " (" + what + "): refused without a message"; });
    }
  }
  // usage
  if (n % 16 == 3) {
    Command c;
    static const std::vector<std::vector<std::string>> help{{"--help"}, {"-h"}, {"dump", "--help"}, {"dump", "-h"}, {"-l", "off", "dump", "--help"}};
    c.args = r.pick(help);
    const Run t = run(ctx, c);
    ctx.count("help");
    ctx.check(t.code == 0 && !t.out.empty() && t.err.empty(), "help", [&] { return line(c) + strf(": status %d: ", t.status) + t.err.substr(0, 300); });
  }
  {
    Command c;
    const std::string x = r.chance(1, 2) ? "x" : path;
    static const std::vector<std::vector<std::string>> wrong{{}, {"dmp", "-f", "@"}, {"-f", "@"}, {"dump", "-f"}, {"dump", "-x", "@"}, {"-l", "loud", "dump", "-f", "@"}, {"-l"},
                                                            {"dump", "@"}, {"--file", "@", "dump"}, {"dump", "-f", "@", "extra"}, {"-l", "7", "dump", "-f", "@"}, {"dump"}, {"-l", "-1", "dump", "-f", "@"}};
    c.args = r.pick(wrong);
    for (auto& a : c.args)
      if (a == "@") a = path;
    const Run t = run(ctx, c);
    ctx.count("wrong_usage");
    ctx.check(t.code > 0 && t.code != 99, "usage", [&] { return line(c) + strf(": wrong usage, status %d: ", t.status) + t.err.substr(0, 300); });
    ctx.check(t.out.empty() && !t.err.empty(), "usage-output", [&] { return line(c) + ": wrong usage: printed " + t.out.substr(0, 300) + " and said " + t.err.substr(0, 300); });
  }
  // it only reads
  {
    std::size_t files = 0, wanted = 1;
    for (const auto& e : fs::directory_iterator(dir)) {
      const std::string x = e.path().filename().string();
      ++files;
      wanted += x == "link.mp4";
      ctx.check(x == "link.mp4" || e.path() == real, "new-file", [&] { return "the tool made a file: " + x; });
    }
    ctx.count("directories_looked_at");
    ctx.check(files == wanted, "lost-file", [&] { return "the tool removed a file"; });
    ctx.check(read_file(real) == last, "changed-file", [&] { return "the tool changed the file it read"; });
  }
  ctx.seen(std::to_string(fnv(file.data(), file.size())) + path);
  if (n < 3) ctx.sample(path.substr(path.rfind('/') + 1) + ": " + std::to_string(file.size()) + " bytes, " + shape(f).substr(0, 200));
  fs::remove_all(dir);
}

Register r27("C27", c27);
}  // namespace
}  // namespace vh
