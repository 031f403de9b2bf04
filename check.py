#!/usr/bin/env python3
"""check.py PROPERTY TIER            run one property's check (quick|thorough)
   check.py --replay FILE            re-run one recorded violation
   check.py --setup                  verify that the tools are there

Every *.cpp file in harness/PROPERTY/ is compiled against /repo's current
headers; each scenario it registers is explored exhaustively (lib/mc.hpp) in a
process of its own.  Exit 0: held on everything explored.  Exit 1 with a
VIOLATION line otherwise."""
import json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NBDL_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
BASE = ["-std=c++26", "-I" + REPO + "/include", "-I/usr/include/jsoncpp",
        "-include", "cstdint", "-include", "string", "-include", "algorithm",
        "-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL", "-ftemplate-backtrace-limit=4",
        "-DBOOST_ASIO_NO_TYPEID", "-w", "-I" + HERE + "/lib", "-g1"]
LIMITS = {"quick": (240, 120), "thorough": (600, 600)}  # scenario budget, no-progress limit


def compiler():
    for c in ("clang++-18", "clang++"):
        p = shutil.which(c)
        if p:
            return p
    return "clang++-18"


def flags_of(src):
    fl = []
    with open(src) as f:
        for line in f:
            m = re.match(r"//\s*mc-flags:(.*)", line)
            if m:
                fl += m.group(1).replace("@HERE@", os.path.dirname(src)).split()
            elif not line.startswith("//"):
                break
    return fl


def compile_one(src, out):
    san = "-O0 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer".split()
    fl = flags_of(src)
    if "--nosan" in fl:
        fl = [f for f in fl if f != "--nosan"]
        san = ["-O1"]
    if "--node" in fl:
        # an addon for Node: the JavaScript of nbdl's headers runs in its engine
        fl = [f for f in fl if f != "--node"] + [
            "-shared", "-fPIC", "-shared-libasan", "-I/usr/include/node", "-I" + HERE + "/lib/web",
            "-include", HERE + "/lib/web/shim.hpp", "-Dmain=mc_main", "-Wl,-Bsymbolic"]
    link = [f for f in fl if f.startswith("-l")]
    fl = [f for f in fl if not f.startswith("-l")]
    cmd = [compiler()] + BASE + san + fl + [src, "-o", out] + link
    for attempt in (1, 2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return None
        if "error:" in p.stdout:
            break
        time.sleep(3)
    return " ".join(cmd) + "\n" + p.stdout


def known_findings(prop):
    keys = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:detect_container_overflow=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")


def asan_runtime():
    if not ASAN_RT:
        arch = os.uname().machine
        ASAN_RT.append(subprocess.run([compiler(), "-print-file-name=libclang_rt.asan-%s.so" % arch],
                                      stdout=subprocess.PIPE, text=True).stdout.strip())
    return ASAN_RT[0]


ASAN_RT = []


def launch(src, binary):
    """the command that runs a harness, and its environment"""
    if "--node" in flags_of(src):
        return (["node", "--stack-size=3900", os.path.join(HERE, "lib", "web", "run.js"), binary],
                dict(ENV, LD_PRELOAD=asan_runtime()))
    return [binary], ENV


def run_scenario(src, binary, name, tier, shard, known, work, extra=()):
    budget, stall = LIMITS[tier]
    fd, page = tempfile.mkstemp(dir=work)
    os.ftruncate(fd, 65536)
    mm = mmap.mmap(fd, 65536)
    os.close(fd)
    log = page + ".log"
    prefix, env = launch(src, binary)
    cmd = prefix + ["--tier", tier, "--scenario", name, "--budget", str(budget), "--page", page,
           "--shard", shard, "--known", "\x1f".join(known)] + list(extra)
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, start_new_session=True,
                             cwd=work)
        last, last_t, hung = None, time.time(), False
        while True:
            try:
                p.wait(timeout=0.05 if last is None else 0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            hb = struct.unpack_from("<Q", mm, 0)[0]
            if hb != last:
                last, last_t = hb, time.time()
            elif time.time() - last_t > stall:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    txt = open(log, errors="replace").read()
    m = re.search(r"^MC-RESULT (.*)$", txt, re.M)
    res = None
    if m and not hung:
        try:
            res = json.loads(m.group(1))
        except ValueError:
            res = None
    if res is None:
        depth = min(struct.unpack_from("<I", mm, 8)[0], 8192)
        choices = list(struct.unpack_from("<%di" % depth, mm, 12))
        nt = mm[12 + 8192 * 4: 12 + 8192 * 4 + 4096].split(b"\0")[0].decode("latin1")
        why = "no progress: one execution did not end within %d s" % stall if hung else \
              "the execution crashed (exit status %s)" % p.returncode
        first = [l for l in txt.splitlines() if "ERROR" in l or "runtime error" in l or "terminate" in l or "Assert" in l]
        res = {"scenario": name, "shard": int(shard.split("/")[0]), "executions": int(struct.unpack_from("<Q", mm, 0)[0]),
               "transitions": 0, "states": 0, "evaluations": 0, "exhaustive": False, "seconds": 0,
               "samples": [], "known": [],
               "violation": {"msg": why + (": " + first[0].strip() if first else ""), "key": "",
                             "choices": choices, "trace": [nt] if nt else [], "log": txt[-6000:]}}
    mm.close()
    os.unlink(page)
    os.unlink(log)
    return res


def main():
    if sys.argv[1] == "--setup":
        subprocess.check_call([compiler(), "--version"], stdout=subprocess.DEVNULL)
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    hdir = os.path.join(HERE, "harness", prop)
    meta = json.load(open(os.path.join(hdir, "meta.json")))
    work = os.path.join(HERE, "build", "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(prop)
    srcs = sorted(f for f in os.listdir(hdir) if f.endswith(".cpp"))
    results, viols, found = [], [], set()
    try:
        with ThreadPoolExecutor(JOBS) as pool:
            builds = {s: pool.submit(compile_one, os.path.join(hdir, s), os.path.join(work, s[:-4])) for s in srcs}
            runs = []

            def start(s):
                err = builds[s].result()
                if err:
                    return s, err, []
                b = os.path.join(work, s[:-4])
                cmd, env = launch(os.path.join(hdir, s), b)
                names = subprocess.run(cmd + ["--list", "--tier", tier], stdout=subprocess.PIPE, text=True, env=env).stdout.split()
                return s, None, names

            for s in srcs:
                s, err, names = start(s)
                if err:
                    viols.append((s, None, {"msg": "harness no longer compiles against /repo's headers",
                                            "log": err[-20000:], "choices": [], "trace": []}))
                    continue
                for n in names:
                    k = int(meta.get("shards", {}).get(n, 1))
                    for i in range(k):
                        runs.append((s, n, pool.submit(run_scenario, os.path.join(hdir, s), os.path.join(work, s[:-4]), n, tier,
                                                       "%d/%d" % (i, k), list(known), work)))
            for s, n, fut in runs:
                r = fut.result()
                r["source"] = s
                results.append(r)
                found.update(r["known"])
                if r["violation"]:
                    viols.append((s, n, r["violation"]))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "model_checking",
          "coverage": {
              "states": sum(r["states"] for r in results),
              "transitions": sum(r["transitions"] for r in results),
              "traces_validated_against_impl": sum(r["executions"] for r in results),
              "evaluations": sum(r["evaluations"] for r in results),
              "exhaustive": bool(results) and all(r["exhaustive"] for r in results) and not viols,
              "rule": meta["rule"],
              "bounds": meta["bounds"],
              "samples": [r["scenario"] + ": " + x for r in results for x in r["samples"][:2]][:24],
              "scenarios": [{"name": r["scenario"], "shard": r["shard"], "states": r["states"], "transitions": r["transitions"],
                             "executions": r["executions"], "exhaustive": r["exhaustive"],
                             "seconds": round(r["seconds"], 2)} for r in results]},
          "assumptions": meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known):
        if k in found:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    for i, (s, n, v) in enumerate(viols):
        path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "source": s, "scenario": n, **v}, f, indent=1)
        print("%s/%s: %s" % (s, n, v["msg"]))
        for t in v["trace"][-40:]:
            print("    " + t)
        if v.get("log"):
            for l in [l for l in v["log"].splitlines() if "error:" in l][:8]:
                print("    ! " + l[:300])
            print("\n".join("    | " + l[:300] for l in v["log"].splitlines()[:40]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d scenarios, %d executions of the real code, %d model states, %d transitions, exhaustive=%s, %.1fs"
          % (prop, tier, len(results), ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["states"],
             ev["coverage"]["transitions"], ev["coverage"]["exhaustive"], ev["wall_s"]))
    return 1 if viols else 0


def replay(path):
    v = json.load(open(path))
    src = os.path.join(HERE, "harness", v["property"], v["source"])
    work = os.path.join(HERE, "build", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        b = os.path.join(work, "h")
        err = compile_one(src, b)
        if err:
            print(err)
            return 1
        if v["scenario"] is None:
            return 0
        cmd, env = launch(src, b)
        p = subprocess.run(cmd + ["--tier", v["tier"], "--scenario", v["scenario"],
                                  "--replay", ",".join(map(str, v["choices"]))], env=env, cwd=work)
        return p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
