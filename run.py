#!/usr/bin/env python3
"""Decides one property by running the real code under monitors.

usage: run.py <property> [--tier quick|thorough] [--cases N] [--from A --to B] [--no-known]
       run.py --setup          build everything once (warms the object cache)
Environment: VERIF_SEED, VERIF_TIER.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys
import tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CXX = "g++"
BASE = ["-std=gnu++14", "-DNDEBUG", "-DCUTTLEFISH_ISPC=0", "-w", "-fno-strict-aliasing", "-faligned-new",
        "-fno-omit-frame-pointer", "-pthread"]
FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr"],
    "tsan": ["-fsanitize=thread", "-rdynamic"],
    "plain": [],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:max_allocation_size_mb=3000:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4:suppressions=" +
                    os.path.join(HARNESS, "tsan.supp"),
}


class HarnessError(Exception):
    pass


def read(path):
    with open(path, "rb") as f:
        return f.read()


def sources():
    lib = sorted(glob.glob(REPO + "/lib/src/**/*.cpp", recursive=True))
    tool = sorted(glob.glob(REPO + "/tool/*.cpp"))
    return lib, tool


def header_digest():
    h = hashlib.sha256()
    pats = ["/lib/include/**/*", "/lib/src/**/*.h", "/lib/src/**/*.inl", "/lib/src/**/*.hpp",
            "/tool/*.h", "/cmake/templates/*"]
    for p in pats:
        for f in sorted(glob.glob(REPO + p, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + read(f) + b"\0")
    return h.hexdigest()


def gen_include():
    d = os.path.join(BUILD, "include", "cuttlefish")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "Export.h")
    data = read(REPO + "/cmake/templates/NoExport.h")
    if not os.path.exists(dst) or read(dst) != data:
        tmp = dst + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            f.write(data)
        os.replace(tmp, dst)
    return os.path.join(BUILD, "include")


def compile_one(src, flags, digest, cpplike):
    key = hashlib.sha256((" ".join(flags) + "|" + src + "|" + digest).encode() + read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise HarnessError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
    # An object is only kept for the source it was made from.
    if key != hashlib.sha256((" ".join(flags) + "|" + src + "|" + digest).encode() + read(src)).hexdigest()[:32]:
        os.remove(tmp)
        raise HarnessError("%s changed while it was compiled" % src)
    os.replace(tmp, obj)
    return obj


def build(targets):
    """targets: list of (name, flavor, kind, driver source, extra) -> path of executable."""
    inc = gen_include()
    lib, tool = sources()
    digest = header_digest()
    hdig = hashlib.sha256(b"".join(read(f) for f in sorted(glob.glob(HARNESS + "/*.h")))).hexdigest()
    incs = ["-I" + inc, "-I" + REPO + "/lib/glm", "-I" + REPO + "/lib/src", "-I" + REPO + "/lib/include"]
    jobs = {}
    plan = []
    for t in targets:
        fl = FLAVORS[t["flavor"]]
        srcs = []
        skip = t.get("skip", [])
        extra = t.get("flags", [])
        dig = digest
        if t.get("stubs"):
            # Recording stand-ins for the encoder libraries, whose sources are not in the tree.
            d = os.path.join(HARNESS, "stubs")
            extra = extra + ["-I" + d]
            dig += hashlib.sha256(b"".join(read(f) for f in sorted(glob.glob(d + "/*")))).hexdigest()
        for s in lib:
            if os.path.basename(s) in skip:
                continue
            srcs.append((s, BASE + fl + extra + incs, dig))
        if t["kind"] == "tool":
            for s in tool:
                srcs.append((s, BASE + fl + extra + incs + ["-I" + REPO + "/tool"], dig))
        for s in t.get("drivers", []):
            srcs.append((os.path.join(HARNESS, s), BASE + fl + extra + incs + ["-I" + HARNESS, "-I" + REPO + "/tool"],
                         dig + hdig))
        plan.append((t, srcs))
        for s in srcs:
            jobs[(s[0], " ".join(s[1]), s[2])] = s
    objs = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # Largest first: the drivers take longest.
        order = sorted(jobs.items(), key=lambda kv: -os.path.getsize(kv[1][0]))
        futs = {k: ex.submit(compile_one, v[0], v[1], v[2], True) for k, v in order}
        for k, f in futs.items():
            objs[k] = f.result()
    exes = {}
    for t, srcs in plan:
        o = [objs[(s[0], " ".join(s[1]), s[2])] for s in srcs]
        link = LINK[t["flavor"]] + t.get("link", [])
        key = hashlib.sha256((" ".join(o) + " ".join(link)).encode()).hexdigest()[:32]
        exe = os.path.join(BUILD, "bin", t["name"] + "-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX, "-pthread"] + o + ["-o", tmp] + link + ["-lfreeimage", "-ldl"],
                               capture_output=True, text=True)
            if r.returncode != 0 and t.get("optional"):
                exes[t["name"]] = None
                continue
            if r.returncode != 0:
                raise HarnessError("link failed: %s\n%s" % (t["name"], r.stderr[-4000:]))
            os.replace(tmp, exe)
        exes[t["name"]] = exe
    return exes


def prune_cache(limit=3 << 30):
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                s = os.stat(f)
                fs.append((s.st_mtime, s.st_size, f))
            except OSError:
                pass
    fs.sort()
    total = sum(x[1] for x in fs)
    for _, size, f in fs:
        if total <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        total -= size


FRAME = re.compile(r"#\d+ +0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)?(?::\d+)?$|#\d+ +0x[0-9a-f]+ in (.+?) \(?(\S+)")


def san_summary(text):
    """Turns sanitizer output into a (key, detail) pair, or None."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([A-Za-z0-9_-]+)", text)
    if m:
        kind = m.group(1) + ":" + m.group(2)
    if not kind:
        m = re.search(r"runtime error: ([^\n]*)", text)
        if m:
            msg = re.sub(r"0x[0-9a-f]+|-?[0-9][0-9.e+-]*|-?nan|-?inf", "N", m.group(1))
            kind = "UBSan:" + msg[:80]
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", text)
        if m:
            kind = "TSan:" + m.group(1).strip()
    if not kind:
        m = re.search(r"ThreadSanitizer[:A-Za-z ]*(SEGV|DEADLYSIGNAL)", text)
        if m:
            kind = "TSan:SEGV"
    if not kind:
        return None
    fn = ""
    frames = []
    for line in text.splitlines():
        mm = re.match(r"\s*#\d+ +(?:0x[0-9a-f]+ in )?(.+)$", line)
        if mm:
            frames.append(mm.group(1))
    def fname(f):
        f = re.sub(r"\(.*", "", f)
        f = re.sub(r" /.*", "", f)
        return f.strip()
    for f in frames:
        if "/repo/" in f:
            fn = fname(f)
            break
    if not fn:
        for f in frames:
            if "cuttlefish" in f:
                fn = fname(f)
                break
    foreign = bool(frames) and "libfreeimage" in frames[0]
    return "san:%s:%s" % (kind, fn), "\n".join(text.splitlines()[:40]), foreign


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                out.append(d)
    return out


class Shard:
    def __init__(self, idx, lo, hi):
        self.idx, self.lo, self.hi = idx, lo, hi


def run_driver(exe, prop, seed, tier, lo, hi, work, tag, env, stall, extra_args=(), prefix=(), stop=lambda: False):
    """Runs cases [lo, hi). Returns (records, rc, stderr text, last case begun, stalled).
    rc is None when it was ended because the whole run is to stop."""
    out = os.path.join(work, "out-%s.jsonl" % tag)
    prog = os.path.join(work, "prog-%s" % tag)
    err = os.path.join(work, "err-%s.txt" % tag)
    scratch = os.path.join(work, "scratch-%s" % tag)
    os.makedirs(scratch, exist_ok=True)
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    cmd = list(prefix) + [exe, "--prop", prop, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--out", out,
                          "--progress", prog, "--tier", tier, "--scratch", scratch] + list(extra_args)
    stalled = False
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=scratch,
                             start_new_session=True)
        last, last_t = None, time.monotonic()
        while True:
            try:
                rc = p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = progress(prog)
            if cur != last:
                last, last_t = cur, time.monotonic()
            elif time.monotonic() - last_t > stall:
                stalled = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
                break
            if stop():
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    shutil.rmtree(scratch, ignore_errors=True)
    with open(err, "rb") as f:
        # The report comes last; libtiff's warnings can be many.
        f.seek(max(0, os.path.getsize(err) - 2000000))
        text = f.read().decode("utf-8", "replace")
    text = "\n".join(l for l in text.splitlines() if not l.startswith("TIFF"))[-400000:]
    return recs, rc, text, progress(prog), stalled


def progress(prog):
    try:
        b = read(prog)
        if len(b) >= 16 and int.from_bytes(b[8:16], "little") == 1:
            return int.from_bytes(b[:8], "little")
    except OSError:
        pass
    return None


def run_shard(ctx, exe_name, exe, prop, lo, hi, sid, prefix=()):
    """Runs one range to its end, stepping over cases that kill the process."""
    viol, summ, notes = [], [], []
    cur, part, restarts = lo, 0, 0

    def stop():
        return ctx.get("stop") or time.monotonic() > ctx["deadline"]
    while cur < hi:
        if stop():
            ctx["cut"] = ctx.get("cut", 0) + hi - cur
            break
        tag = "%s-%d-%d" % (exe_name, sid, part)
        part += 1
        recs, rc, text, at, stalled = run_driver(exe, prop, ctx["seed"], ctx["tier"], cur, hi, ctx["work"], tag,
                                                 ctx["env"], ctx["stall"], prefix=prefix, stop=stop)
        for r in recs:
            if r["t"] == "v":
                r["exe"] = exe_name
                viol.append(r)
            else:
                summ.append(r)
        if rc == 0:
            break
        if rc is None:
            ctx["cut"] = ctx.get("cut", 0) + hi - (cur if at is None else at)
            break
        if at is None:
            raise HarnessError("driver did not start (rc %s): %s" % (rc, text[-2000:]))
        if at >= hi:
            # Died after the last case: at-exit report, e.g. a leak.
            s = san_summary(text)
            if s:
                viol.append({"key": s[0], "detail": s[1], "case": hi - 1, "exe": exe_name, "from": cur, "to": hi})
            else:
                raise HarnessError("driver failed after its last case (rc %s): %s" % (rc, text[-2000:]))
            break
        # Confirm alone, with the same seed.
        if stalled:
            r2 = run_driver(exe, prop, ctx["seed"], ctx["tier"], at, at + 1, ctx["work"], tag + "-re", ctx["env"],
                            ctx["stall"]*2, prefix=prefix, stop=lambda: ctx.get("stop"))
            if r2[1] is None:
                break
            if r2[4]:
                # Others would wait for the same: what was found is enough.
                viol.append({"key": "hang", "detail": "case %d made no progress twice" % at, "case": at,
                             "exe": exe_name})
                ctx["stop"] = True
            else:
                notes.append("case %d was slow once, finished when run alone" % at)
                for r in r2[0]:
                    if r["t"] == "v":
                        r["exe"] = exe_name
                        viol.append(r)
                    else:
                        summ.append(r)
        else:
            s = san_summary(text)
            if s:
                key, detail, foreign = s
                if foreign and ctx.get("foreign_ok"):
                    notes.append("case %d: report inside the FreeImage library itself, ignored: %s" % (at, key))
                else:
                    viol.append({"key": key, "detail": detail, "case": at, "exe": exe_name})
            elif rc < 0 or rc in (97, 98, 134, 139):
                if rc == -9:
                    r2 = run_driver(exe, prop, ctx["seed"], ctx["tier"], at, at + 1, ctx["work"], tag + "-re", ctx["env"],
                                    ctx["stall"]*2, prefix=prefix, stop=stop)
                    if r2[1] == -9 and not r2[4]:
                        viol.append({"key": "memory", "detail": "case %d used up the memory twice" % at, "case": at,
                                     "exe": exe_name})
                        ctx["stop"] = True
                    else:
                        notes.append("case %d: killed (memory?), inconclusive" % at)
                else:
                    viol.append({"key": "crash:rc%d" % rc, "detail": text[-1500:], "case": at, "exe": exe_name})
            else:
                raise HarnessError("driver rc %s at case %s: %s" % (rc, at, text[-2000:]))
        cur = at + 1
        restarts += 1
        ctx["restarts"] = ctx.get("restarts", 0) + 1
        if restarts > 6 or ctx["restarts"] > 60:
            notes.append("gave up after 6 restarts at case %d of [%d,%d)" % (cur, lo, hi))
            break
    return viol, summ, notes


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--from", dest="lo", type=int)
    ap.add_argument("--to", dest="hi", type=int)
    ap.add_argument("--no-known", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        seen = {}
        for p in PROPS.values():
            for t in p["targets"]:
                seen[t["name"]] = t
        build(list(seen.values()))
        print("setup: built %d programs" % len(seen))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    spec = PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    exes = build(spec["targets"])
    tb = time.monotonic() - t0
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    env = dict(os.environ)
    env.update(ENV)
    env["LC_ALL"] = "C.UTF-8"
    env.update(spec.get("env", {}))
    for t in spec["targets"]:
        if not exes[t["name"]]:
            continue
        env["VH_EXE_" + t["name"].upper().replace("-", "_")] = exes[t["name"]]
    env["VH_VERIF"] = VERIF
    ctx = {"seed": seed, "tier": tier, "work": work, "env": env, "stall": spec.get("stall", 100),
           "foreign_ok": spec.get("foreign_ok", False),
           # A quick check has 900 s to answer, also where every case hangs for a while.
           "deadline": t0 + 780 if tier == "quick" and a.cases is None else float("inf")}
    viol, summ, notes = [], [], []
    try:
        jobs = []
        for run in spec["runs"]:
            if not exes[run["exe"]]:
                notes.append("%s could not be linked with this tree, skipped" % run["exe"])
                continue
            n = a.cases or run[tier]
            lo, hi = 0, n
            if a.lo is not None:
                lo, hi = a.lo, (a.hi if a.hi is not None else a.lo + 1)
            par = run.get("parallel", 8)
            # Many small interleaved ranges balance the load and bound the damage of a crash.
            chunk = max(1, min(run.get("chunk", 1 << 30), (hi - lo + par - 1)//par))
            sid = 0
            rj = []
            for s in range(lo, hi, chunk):
                rj.append((run["exe"], s, min(hi, s + chunk), sid, run.get("prefix", ())))
                sid += 1
            jobs.append((par, rj))
        for par, rj in jobs:
            with concurrent.futures.ThreadPoolExecutor(par) as ex:
                futs = [ex.submit(run_shard, ctx, e, exes[e], a.prop, lo, hi, sid, pre) for e, lo, hi, sid, pre in rj]
                for f in futs:
                    v, s, n = f.result()
                    viol += v
                    summ += s
                    notes += n
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work:", work)
    if ctx.get("cut"):
        notes.append("%d cases left out: %s" % (ctx["cut"], "stopped by what was found" if ctx.get("stop") else "out of time"))
    # Merge.
    evaluations = sum(s["evaluations"] for s in summ)
    cover, counters, samples = set(), {}, []
    for s in summ:
        cover |= set(s["cover"])
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for x in s["samples"]:
            if len(samples) < 8 and x not in samples:
                samples.append(x)
    by_key = {}
    for v in viol:
        by_key.setdefault(v["key"], []).append(v)
    known = [] if a.no_known else [k for k in load_known() if k.get("property") == a.prop and k.get("status") == "known"]
    found_known, reported = {}, {}
    for key, vs in by_key.items():
        hit = None
        for k in known:
            if re.fullmatch(k["match"], key):
                hit = k
                break
        if hit:
            found_known.setdefault(hit["id"], (hit, []))[1].extend(vs)
        else:
            reported[key] = vs
    rdir = os.path.join(VERIF, "replay")
    if reported:
        os.makedirs(rdir, exist_ok=True)
    lines = []
    for key, vs in sorted(reported.items()):
        name = "%s-%s.json" % (a.prop, hashlib.sha256(key.encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        v = vs[0]
        with open(path, "w") as f:
            json.dump({"property": a.prop, "key": key, "seed": seed, "tier": tier, "case": v["case"],
                       "detail": v["detail"], "sightings": len(vs),
                       "replay": "VERIF_SEED=%d python3 %s/run.py %s --tier %s --from %d --to %d" % (
                           seed, VERIF, a.prop, tier, v.get("from", v["case"]), v.get("to", v["case"] + 1))},
                      f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  [%s] case %d (%d sightings): %s" % (key, v["case"], len(vs), v["detail"][:600 if not a.v else 6000]))
    wall = time.monotonic() - t0
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(cover), "rule": spec["rule"],
                       "samples": samples or ["(none)"]},
          "wall_s": round(wall, 1),
          "violations": len(reported),
          "assumptions": spec.get("assumptions", [])}
    ev["coverage"]["counters"] = counters
    ev["coverage"]["notes"] = notes
    ev["coverage"]["distinct_examples"] = sorted(cover)[:: max(1, len(cover)//40)][:40]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        what = "%s" % k["what"]
        if k["id"] in found_known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    print("%s: %d evaluations, %d distinct situations, build %.1fs, total %.1fs%s" % (
        a.prop, evaluations, len(cover), tb, wall, "; " + "; ".join(notes[:5]) if notes else ""))
    if a.v:
        print(json.dumps(counters, indent=1))
    prune_cache()
    if lines:
        for l in lines:
            print(l)
        return 1
    min_eval, min_cover = spec.get("min_evaluations", 1), spec.get("min_cover", 1)
    if a.lo is None and a.cases is None and (evaluations < min_eval or len(cover) < min_cover):
        print("inconclusive: too little observed (%d evaluations, %d situations)" % (evaluations, len(cover)))
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("harness error: %s" % e)
        sys.exit(2)
