#!/usr/bin/env python3
"""Runs the monitor of one property: builds /repo's working tree with instrumentation, runs the workload in parallel
shards, collects what the monitors observed, writes evidence and reports violations.

  check.py <property> [quick|thorough]      (VERIF_TIER and VERIF_SEED are the defaults)
  check.py <property> --replay <file>
"""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS  # noqa: E402

JOBS = min(8, os.cpu_count() or 8)
DEFS = "-DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DFMT_SHARED".split()
CONFIGS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions
    "asan": {
        "cxx": "clang++",
        "flags": "-w -O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
        "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
        "link": "-fsanitize=address,undefined",
        "pch": True,
    },
    "tsan": {
        "cxx": "clang++",
        "flags": "-w -O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=thread",
        "link": "-fsanitize=thread",
        "pch": True,
    },
    # the library reports which of its code runs, and what it compares
    "cov": {
        "cxx": "clang++",
        "flags": "-w -O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
        "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
        "lib_flags": "-fsanitize-coverage=inline-8bit-counters,trace-cmp",
        "link": "-fsanitize=address,undefined",
        "pch": True,
    },
    "plain": {"cxx": "clang++", "flags": "-w -O1 -g", "link": "", "pch": True},
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:"
    "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:malloc_context_size=12:"
    "handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4",
}


class NoAnswer(Exception):
    pass


def log(*a):
    print("[check]", *a, flush=True)


def build(cfg_name, sources, exe, extra_link="", tool=False):
    """Builds the library from /repo's working tree together with the harness sources; returns the executable."""
    cfg = CONFIGS[cfg_name]
    out = os.path.join(V, "build", cfg_name)
    os.makedirs(out, exist_ok=True)
    base = [cfg["cxx"], "-std=c++20", "-I" + R + "/include", "-I" + V + "/harness"] + DEFS + cfg["flags"].split()
    lib = sorted(s for s in glob.glob(R + "/src/**/*.cpp", recursive=True) if "/cli/" not in s)
    if not lib:
        raise NoAnswer("no library sources found in " + R)
    n = ["rule pch", " command = %s -fpch-instantiate-templates -Xclang -fno-pch-timestamp -x c++-header $in -o $out -MD -MF $out.d" % " ".join(base)]
    n += [" depfile = $out.d", " deps = gcc"]
    inc = " -include-pch " + out + "/pch.pch" if cfg["pch"] else ""
    n += ["rule cc", " command = %s%s -c $in -o $out -MD -MF $out.d" % (" ".join(base), inc)]
    n += [" depfile = $out.d", " deps = gcc"]
    n += ["rule lib", " command = %s %s%s -c $in -o $out -MD -MF $out.d" % (" ".join(base), cfg.get("lib_flags", ""), inc)]
    n += [" depfile = $out.d", " deps = gcc"]
    n += ["rule ld", " command = %s %s $in -o $out -lspdlog -lfmt -pthread -ldl $xl"
          % (cfg["cxx"], (cfg["link"] + " " + cfg["flags"]))]
    if cfg["pch"]:
        n += ["build %s/pch.pch: pch %s/harness/pch.hpp" % (out, V)]
    dep = " | %s/pch.pch" % out if cfg["pch"] else ""
    objs = []
    hs = [os.path.join(V, "harness", s) for s in sources]
    for s in hs + lib:  # the harness first: its files take longest
        o = out + "/o/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
        n.append("build %s: %s %s%s" % (o, "lib" if s in lib else "cc", s, dep))
        objs.append(o)
    target = os.path.join(out, exe)
    n += ["build %s: ld %s" % (target, " ".join(objs)), " xl = " + extra_link]
    targets = [target]
    if tool:
        cli = sorted(glob.glob(R + "/src/cli/*.cpp"))
        co = []
        for s in cli:
            o = out + "/o/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
            n.append("build %s: cc %s%s" % (o, s, dep))
            co.append(o)
        t = os.path.join(out, "mp4-tool")
        n.append("build %s: ld %s" % (t, " ".join(co + objs[len(hs):])))
        targets.append(t)
    nf = os.path.join(out, exe + ".ninja")
    with open(nf, "w") as f:
        f.write("builddir = %s\n" % out + "\n".join(n) + "\n")
    t = time.time()
    lock = open(os.path.join(out, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    p = subprocess.run(["ninja", "--quiet", "-f", nf, "-j", str(JOBS)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode("utf-8", "replace")[-6000:])
        raise NoAnswer("the instrumented build failed")
    log("built %s (%s) in %.1f s" % (exe, cfg_name, time.time() - t))
    return target


def crash_summary(err):
    """One line naming what a sanitizer or the runtime reported, and the first frames in /repo."""
    lines = err.splitlines()
    head = ""
    for l in lines:
        m = re.search(r"(ERROR: \w+Sanitizer: .*|WARNING: ThreadSanitizer: .*|runtime error: .*|Assertion .*failed.*|terminate called.*|"
                      r"what\(\):.*|Fatal .*)", l)
        if m:
            head = m.group(1)
            break
    frames = [m.group(1) for m in re.finditer(r"(?:in|#\d+) .*?(" + re.escape(R) + r"/\S+?:\d+)", err)][:3]
    return (head or (lines[-1] if lines else "no output"))[:240] + (" at " + " < ".join(frames) if frames else "")


def run_shards(check, exe, tier, seed, cases, work, env, limit, extra=()):
    """Runs the cases in JOBS parallel processes; returns (observations, failures)."""
    pid = check["id"]
    shards = check.get("shards", JOBS)
    procs = []
    for s in range(shards):
        d = os.path.join(work, "s%d" % s)
        os.makedirs(d, exist_ok=True)
        cmd = list(check.get("wrapper", [])) + [exe, "--prop", pid, "--seed", str(seed), "--from", str(s), "--to", str(cases), "--stride",
               str(shards), "--cur", d + "/cur", "--out", d + "/out.json", "--tier", tier, "--scratch", d, "--limit",
               str(limit), "--case-limit", str(check.get("case_limit", 120))] + list(extra)
        e = open(d + "/stderr", "wb")
        procs.append((s, d, cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, env=env, cwd=d,
                                                  start_new_session=True)))
        e.close()
    obs = {"cases": 0, "cut": False, "evaluations": 0, "counts": {}, "distinct": set(), "samples": []}
    fails = []
    deadline = time.time() + limit + 200
    for s, d, cmd, p in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        if rc == 0 and os.path.exists(d + "/out.json"):
            o = json.load(open(d + "/out.json"))
            obs["cases"] += o["cases"]
            obs["cut"] |= o["cut"]
            obs["evaluations"] += o["evaluations"]
            for k, v in o["counts"].items():
                if k.startswith("max_"):
                    obs["counts"][k] = max(v, obs["counts"].get(k, 0))
                else:
                    obs["counts"][k] = v + obs["counts"].get(k, 0)
            obs["distinct"] |= set(o["distinct"])
            obs["samples"] += o["samples"]
            for f in o["failures"]:
                fails.append({"key": f["key"], "msg": f["msg"], "case": f["case"], "cmd": cmd})
            continue
        cur = -1
        try:
            cur = int.from_bytes(open(d + "/cur", "rb").read(8), "little")
        except OSError:
            pass
        err = open(d + "/stderr", "rb").read().decode("utf-8", "replace")
        if rc == 3:
            raise NoAnswer("driver error: " + err[-2000:])
        if rc in (-signal.SIGKILL,):
            raise NoAnswer("a shard was killed from outside (out of memory?)")
        if rc in (-signal.SIGALRM, "timeout"):
            fails.append({"key": "hang", "msg": "the case did not finish within %s s" % check.get("case_limit", 120),
                          "case": cur, "cmd": cmd})
        else:
            fails.append({"key": "crash", "msg": "exit %s: %s" % (rc, crash_summary(err)), "case": cur, "cmd": cmd,
                          "stderr": err[-12000:]})
    return obs, fails


def known_findings(pid):
    """Entries "known: property=<id> key=<key> <what fails>"; "fixed:" entries suppress nothing."""
    out = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    if args[:1] == ["--selftest"]:
        for t in ("clang++", "ninja"):
            if not shutil.which(t):
                print(t, "is missing")
                return 1
        print("tools present; every check builds what it needs from", R)
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if len(args) > 1 and args[1] == "--replay":
        replay = json.load(open(args[2]))
    elif len(args) > 1:
        tier = args[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = dict(CHECKS[pid])
    check["id"] = pid
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    rc = 2
    try:
        env = dict(os.environ)
        env.update(ENV)
        env.update(check.get("env", {}))
        env["TZ"] = check.get("tz", "UTC")
        obs = None
        fails = []
        for part in check.get("parts") or [check]:
            part = dict(check, **part)
            exe = build(part["config"], part["sources"], part.get("exe", pid.lower()), part.get("link", ""),
                        part.get("tool", False))
            penv = dict(env, **part.get("env", {}))
            if part.get("tool"):
                penv["VH_TOOL"] = os.path.join(os.path.dirname(exe), "mp4-tool")
            if replay:
                if replay.get("config", part["config"]) != part["config"]:
                    continue
                cmd = list(part.get("wrapper", [])) + [exe, "--prop", part.get("prop", pid), "--seed", str(replay["seed"]), "--from", str(replay["case"]), "--to",
                       str(replay["case"] + 1), "--tier", replay["tier"], "--scratch", work, "--verbose", "1"]
                return subprocess.run(cmd, env=penv, cwd=work).returncode
            t1 = time.time()
            limit = part.get("limit", 330) if tier == "quick" else part.get("thorough_limit", 700)
            p2 = dict(part)
            p2["id"] = part.get("prop", pid)
            o, f = run_shards(p2, exe, tier, seed, part[tier], work, penv, limit)
            for x in f:
                x["config"] = part["config"]
            log("%s: %d cases, %d oracle evaluations, %d distinct, %d failures in %.1f s" %
                (part["config"], o["cases"], o["evaluations"], len(o["distinct"]), len(f), time.time() - t1))
            fails += f
            if obs is None:
                obs = o
            else:
                obs["cases"] += o["cases"]
                obs["cut"] |= o["cut"]
                obs["evaluations"] += o["evaluations"]
                for k, v in o["counts"].items():
                    k = part["config"] + "." + k
                    obs["counts"][k] = v
                obs["distinct"] |= o["distinct"]
                obs["samples"] += o["samples"]
        # required observations: a monitor that saw nothing decides nothing
        for k, least in check.get("require", {}).items():
            if not fails and not obs["cut"] and obs["counts"].get(k, 0) < least:
                raise NoAnswer("the workload did not reach %s (%d < %d)" % (k, obs["counts"].get(k, 0), least))
        known = known_findings(pid)
        hit = {}
        new = []
        for f in fails:
            for key, what in known:
                if f["key"] == key:
                    hit[key] = what
                    break
            else:
                new.append(f)
        replays = []
        seen = set()
        for f in new:
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            path = os.path.join(V, "evidence", "replay-%s-%d.json" % (pid, len(replays)))
            with open(path, "w") as fh:
                json.dump({"property": pid, "seed": seed, "tier": tier, "case": f["case"], "key": f["key"], "config": f.get("config"),
                           "message": f["msg"], "command": f["cmd"], "stderr": f.get("stderr", ""),
                           "rerun": "python3 /verif/check.py %s --replay %s" % (pid, path)}, fh, indent=1)
            replays.append((path, f))
            if len(replays) >= 10:
                break
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": check["level"],
            "coverage": {
                "evaluations": obs["evaluations"], "distinct_nontrivial": len(obs["distinct"]), "rule": check["rule"],
                "samples": obs["samples"][:6] or ["-"], "cases": obs["cases"], "cut_by_time_limit": obs["cut"],
                "observed": dict(sorted(obs["counts"].items())),
            },
            "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new),
        }
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for key, what in known:
            if key in hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, what), flush=True)
        for path, f in replays:
            log("case %s key %s: %s" % (f["case"], f["key"], f["msg"][:1500]))
        for path, f in replays:
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        rc = 1 if new else 0
        log("%s %s: %s (%.1f s)" % (pid, tier, "VIOLATED" if new else "held", time.time() - t0))
    except NoAnswer as e:
        log("no answer:", e)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
