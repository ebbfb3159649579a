#!/usr/bin/env python3
"""Model checking driver for IMUtility.

  run.py setup                     compile the explorers once (a check compiles what is missing itself)
  run.py check <id> [--thorough]   decide one property on the current tree of /repo
  run.py replay <file>             run the recorded counterexample again on the current tree
  run.py list                      properties, units, builds

Every check builds the library from /repo's working tree in the builds its property needs, links the
explorers against it, runs every case of its units and judges the results.
Exit 0: held on everything explored; 1: violation; 2: no answer (an error of the check).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IM_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4
LIBFLAGS = ["-std=gnu99", "-w", "-D_POSIX_C_SOURCE=200809L", "-fPIC"]
CXXFLAGS = ["-std=c++17", "-O2", "-w"]

# name: (compiler and flags of the library, link flags)
FLAVOURS = {
    "asan": (["gcc", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"], ["-fsanitize=address"]),
    "O2": (["gcc", "-O2"], []),
    "O0": (["gcc", "-O0", "-ftrivial-auto-var-init=pattern"], []),
    "clang": (["clang", "-O2"], []),
    "O3u": (["gcc", "-O3", "-funsigned-char", "-ftrivial-auto-var-init=zero"], []),
    "Os": (["gcc", "-Os", "-funsigned-char", "-DNDEBUG"], []),
    "clangO0": (["clang", "-O0", "-ftrivial-auto-var-init=pattern"], []),
    # builds that watch for something else than results
    "ub": (["clang", "-O1", "-g", "-fno-sanitize-recover=all", "-fsanitize=address,signed-integer-overflow,shift-exponent,integer-divide-by-zero,"
            "null,alignment,bounds,bool,return,unreachable,vla-bound,float-cast-overflow"], ["-fsanitize=address,undefined"]),
    "unset": (["clang", "-O0", "-g", "-fsanitize=memory"], ["-fsanitize=memory"]),
    "watch": (["gcc", "-O2"], []),
    "watchO0": (["gcc", "-O0"], []),
    "steps": (["gcc", "-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc"], []),  # every basic block entered is counted
}
CXX = {"ub": "clang++", "unset": "clang++"}  # links the explorer, if not g++
COUNTED = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strcmp", "strncmp", "strstr", "strchr"]  # and the work of these, in that build
EDGE = {"unset", "watch", "watchO0", "steps"}  # calls of the library are announced to the explorer
ALLOC = {"watch", "watchO0"}  # linked with the allocator that reports

# property: list of (units, builds, what is judged); judged: "func", "mem" or "both"
UNITS = {
    "C01": ["queue_bfs", "queue_grid", "queue_big", "queue_long"],
    "C02": ["pq_order_bfs", "pq_order_all", "pq_order_positions", "pq_order_evict", "pq_big", "pq_long"],
    "C03": ["pq_overflow_bfs", "pq_overflow_positions", "pq_overflow_big", "pq_long"],
    "C04": ["map_bfs", "map_bytes", "map_sizes", "map_many"],
    "C05": ["sched_tables", "sched_bfs", "sched_live", "sched_big"],
    "C06": ["sort_all", "sort_sizes", "sort_big"],
    "C07": ["sort_adversarial", "sort_hostile"],
    "C08": ["sort_stable_all", "sort_stable_sizes"],
    "C09": ["b64_enc_small", "b64_enc_short", "b64_enc_caps", "b64_enc_long"],
    "C10": ["b64_dec_small", "b64_dec_groups", "b64_dec_tails", "b64_dec_caps", "b64_dec_long"],
    "C11": ["crc_oneshot"],
    "C12": ["crc_chunk"],
    "C13": ["crc_tables", "crc_engines"],
    "C14": ["chacha_rfc", "chacha_lengths", "chacha_basis"],
    "C15": ["chacha_laws"],
    "C16": ["caesar"],
    "C17": ["vernam", "vernam_lengths"],
    "C18": ["json_build_bfs", "json_build_sizes"],
    "C19": ["json_find", "json_find_space", "json_find_long"],
    "C20": ["decimal", "decimal_text"],
    "C21": ["serial", "blobs"],
    "C22": ["bitops"],
    "C23": ["refused", "refused_twins"],
    "C25": ["iso_interleave", "iso_product", "iso_crc", "iso_nested", "iso_tasks"],
    "C26": ["hist_pairs", "hist_near", "hist_repeat", "hist_paint", "hist_hidden", "hist_reuse"],
    "C27": ["init_queue", "init_pq", "init_map"],
    "C28": ["exchange", "letters"],
    "C29": ["json_b64"],
    "C30": ["crc_errors"],
    "C32": ["json_any", "json_any_change"],
}
GARBAGE = ["b64_garbage", "json_garbage"]
HEAVY = ["queue_long", "pq_long", "crc_errors", "queue_big", "sort_big", "crc_chunk"]  # started first
STOUT = ["refused_twins", "sort_hostile", "hist_near"]
SLOW = ["crc_oneshot", "hist_pairs", "refused_twins", "iso_interleave"]  # compared between builds at level 0 in the quick check
HUGE = ["huge_queue", "huge_pq", "huge_map", "huge_sort", "huge_bytes", "huge_text", "huge_stream"]  # C35; they take gigabytes
EVERY = sorted({u for p in UNITS for u in UNITS[p]})
# Properties whose statement also promises that nothing else is written or read.
MEMORY_TOO = {"C07", "C09", "C10", "C14", "C18", "C20", "C21", "C28"}


def plan(prop, thorough):
    """The runs of a property: (unit, build, judged, level of the bounds)."""
    lo, mid, hi = 0, 1, 2
    if prop == "C24":
        level = mid if thorough else lo
        r = [(u, "asan", "mem", lo if u in HEAVY else level) for u in EVERY + GARBAGE]
        if thorough:
            r += [(u, "O2", "mem", level) for u in HEAVY]
        if thorough:
            r += [(u, "O2", "mem", level) for u in EVERY + GARBAGE if u not in HEAVY]
        return r
    if prop in ("C33", "C34"):
        # (build, units left out of the quick check because they take long there and call nothing that others do not)
        builds = {"C33": (("ub", ["crc_errors"]), ("unset", HEAVY + STOUT)), "C34": (("watch", ["crc_errors"] + STOUT), ("watchO0", EVERY + GARBAGE))}[prop]
        r = [("stack", f, "rule", hi if thorough else mid) for f in ("watch", "watchO0")] if prop == "C34" else []
        return r + [(u, f, "rule", mid if thorough and u not in HEAVY else lo) for f, skip in builds for u in EVERY + GARBAGE if thorough or u not in skip]
    if prop == "C36":
        return [("effort", "steps", "rule", hi if thorough else mid)] + [
            (u, "steps", "rule", mid if thorough and u not in HEAVY else lo) for u in EVERY + GARBAGE if u != "sort_big" and (thorough or u not in ["crc_errors"] + STOUT)]
    if prop == "C35":
        return [(u, "O2", "func", mid if thorough else lo) for u in HUGE]
    if prop == "C31":
        return [(u, f, "hash", mid if thorough or u not in SLOW else lo) for f in ("O2", "O0", "O3u", "Os", "clang", "clangO0")
                for u in EVERY if u not in HEAVY and u not in ("hist_hidden", "hist_reuse")]
    units = UNITS[prop]
    if thorough:
        r = [(u, "O2", "func", hi) for u in units]
        r += [(u, f, "func", mid) for f in ("O0", "clang", "O3u") for u in units]
    else:
        r = [(u, "O2", "func", mid) for u in units]
        r += [(u, "clang" if u in HEAVY else "O0", "func", lo) for u in units]
    if prop in MEMORY_TOO:
        r += [(u, "asan", "both", mid if thorough else lo) for u in units]
    return r


ASSUME = {
    "all": ["the explorers link against the library as built from /repo's working tree by gcc 13 / clang 18 on x86-64 (little endian, LP64)",
            "coverage is the enumerated space described in DESIGN.md; values outside the alphabets and bounds are not covered"],
}


class CheckError(Exception):
    pass


def sh(cmd, what, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-1500:]))


def unit_files():
    m = {}
    for f in sorted(glob.glob(os.path.join(H, "u_*.cpp"))):
        with open(f) as fh:
            for u in re.findall(r"^UNIT\((\w+)\)", fh.read(), re.M):
                m[u] = os.path.basename(f)
    return m


def harness_objects(files, pool):
    """Compile the explorers (independent of /repo); cached by content."""
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    hdr = b"".join(open(os.path.join(H, f), "rb").read() for f in ("mc.hpp", "shim.h"))

    def one(f):
        src = os.path.join(H, f)
        h = hashlib.sha256(hdr + open(src, "rb").read() + repr(CXXFLAGS).encode()).hexdigest()[:20]
        o = os.path.join(cache, "%s-%s.o" % (f, h))
        if not os.path.exists(o):
            t = "%s.%d.tmp" % (o, os.getpid())
            sh(["g++"] + CXXFLAGS + ["-c", src, "-o", t], "compiling " + f)
            os.rename(t, o)
        return o
    return [pool.submit(one, f) for f in files]


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "Src", "**", "*.c"), recursive=True))


def include_flags():
    r = []
    for base in ("Inc", "Src"):
        for d, _, _ in os.walk(os.path.join(REPO, base)):
            r.append("-I" + d)
    return r


class Build:
    def __init__(self, flavours, units):
        self.dir = os.path.join(BUILD, "run-%d-%d" % (os.getpid(), int(time.time() * 1000)))
        os.makedirs(self.dir)
        try:
            self.make(flavours, units)
        except BaseException:
            self.close()
            raise

    def make(self, flavours, units):
        uf = unit_files()
        for u in units:
            if u not in uf:
                raise CheckError("no such unit: " + u)
        files = sorted(set(uf.values())) + ["mc.cpp"]  # they share reference models
        with cf.ThreadPoolExecutor(JOBS) as pool:
            objs = harness_objects(files, pool)
            inc = include_flags()
            jobs = {}
            for fl in flavours:
                d = os.path.join(self.dir, fl)
                os.makedirs(d)
                cc = FLAVOURS[fl][0]
                jobs[fl] = []
                for s in lib_sources() + [os.path.join(H, "shim.c")]:
                    o = os.path.join(d, hashlib.sha256(s.encode()).hexdigest()[:16] + ".o")
                    extra = ["-I" + H] + (["-DSHIM_EDGE", "-fexceptions"] if fl in EDGE else []) if s.startswith(H) else []
                    jobs[fl].append((o, pool.submit(sh, cc + LIBFLAGS + extra + inc + ["-c", s, "-o", o], "compiling %s (%s)" % (s, fl))))
            ho = [o.result() for o in objs]
            al = [o.result() for o in harness_objects(["alloc.cpp"], pool)]

            def link(fl):
                d = os.path.join(self.dir, fl)
                lo = [o for o, _ in jobs[fl]]
                ld = FLAVOURS[fl][1]
                cc = FLAVOURS[fl][0][0]
                so = os.path.join(d, "libim_%s.so" % fl)
                sh([cc, "-shared", "-Wl,-z,now", "-o", so] + ld + (["-Wl,--wrap=" + f for f in COUNTED] if fl == "steps" else []) + lo + ["-lm"], "linking the library (%s)" % fl)
                sh([CXX.get(fl, "g++"), "-o", self.exe(fl)] + ld + ho + (al if fl in ALLOC else []) + ["-L" + d, "-lim_" + fl, "-Wl,-rpath," + d], "linking the explorer (%s)" % fl)
            for fl in flavours:
                for _, j in jobs[fl]:
                    j.result()
            list(pool.map(link, flavours))

    def exe(self, fl):
        return os.path.join(self.dir, fl, "mc")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# An exploration that the time budget ended: it found nothing, and it counts as not explored.
UNFINISHED = {"rc": None, "info": [], "samples": [], "fail": None, "done": None}


class Runner:
    """Runs explorer processes and interprets their output."""
    def __init__(self, build, deadline, soft=None):
        self.b, self.deadline, self.soft = build, deadline, soft  # soft: explorations end unfinished instead of failing
        self.procs, self.lock, self.stopped = set(), threading.Lock(), False

    def args(self, unit, mode, level, shard=None, only=None, hang=None, hashfile=None):
        a = ["--unit", unit]
        if shard:
            a += ["--shard", "%d/%d" % shard]
        if only is not None:
            a += ["--only", str(only)]
        a += ["--level", str(level)]
        if mode == "func":
            a.append("--no-mem")
        elif mode == "mem":
            a.append("--no-func")
        elif mode == "rule":
            a.append("--rule")
        elif mode == "hash":
            a += ["--hash", hashfile]
        if unit in HUGE:
            hang = 400 if level else 150
        if hang:
            a += ["--hang", str(hang)]
        return a

    def run(self, fl, args):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:handle_segv=1:allow_user_poisoning=1:detect_stack_use_after_return=0:symbolize=0"
        env["MSAN_OPTIONS"] = "exitcode=77:poison_in_malloc=0:poison_in_free=0:symbolize=0"
        env["HUGE_LOCK"] = os.path.join(self.b.dir, "huge.lock")
        env["UBSAN_OPTIONS"] = "exitcode=77:abort_on_error=0:handle_segv=1:symbolize=0"
        left = (self.soft or self.deadline) - time.time()
        if left <= 0:
            if self.soft:
                return UNFINISHED
            raise CheckError("out of time")
        with self.lock:
            if self.stopped:
                return None
            p = subprocess.Popen([self.b.exe(fl)] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
            self.procs.add(p)
        try:
            out, err = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            if self.soft:
                return UNFINISHED
            raise CheckError("out of time in %s %s" % (fl, " ".join(args)))
        finally:
            with self.lock:
                self.procs.discard(p)
        if self.stopped:
            return None
        return self.parse(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), fl, args)

    @staticmethod
    def parse(rc, out, err, fl, args):
        r = {"rc": rc, "info": [], "samples": [], "fail": None, "done": None}
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "FAIL":
                r["fail"] = {"kind": f[1], "unit": f[2], "case": int(f[3]), "msg": "\t".join(f[4:])}
            elif f[0] in ("CRASH", "HANG"):
                what = f[0].lower()
                m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", err)
                extra = m.group(1) if m else ""
                m = re.search(r"WARNING: MemorySanitizer: ([^\n]*)", err)
                extra = extra or (m.group(1) if m else "")
                m = re.search(r"(\S*:\d+:\d+: )?runtime error: ([^\n]*)", err)
                extra = extra or ((m.group(1) or "") + m.group(2) if m else "")
                a = re.search(r"\b(READ|WRITE) of size \d+", err)
                if a:
                    extra += " (" + a.group(0) + ")"
                r["fail"] = {"kind": what, "unit": f[1], "case": int(f[2]),
                             "msg": (("memory error: " + extra) if extra else "the call crashed" if what == "crash" else "the call did not return") + " [" + "\t".join(f[3:]) + "]"}
            elif f[0] == "INFO":
                r["info"].append(f[1])
            elif f[0] == "SAMPLE":
                r["samples"].append(f[1])
            elif f[0] == "DONE":
                r["done"] = {k: int(v) for k, v in (x.split("=") for x in f[2].split())}
        if r["fail"] is None and (rc != 0 or r["done"] is None):
            raise CheckError("explorer ended with status %s: %s %s\n%s" % (rc, fl, " ".join(args), (out + err)[-2000:]))
        return r

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in self.procs:
                try:
                    p.kill()
                except OSError:
                    pass


def shards_of(unit):
    return 16 if unit in HEAVY or unit in ("hist_pairs",) else 8


def confirm(b, deadline, task, fail):
    """Re-run a failure: alone, else within its shard. Returns (fail, how) or (None, None)."""
    unit, fl, mode, shard, level = task
    r = Runner(b, deadline)
    hang = 240 if fail["kind"] == "hang" else None
    x = r.run(fl, r.args(unit, mode, level, only=fail["case"], hang=hang))
    if x["fail"]:
        return x["fail"], {"only": x["fail"]["case"]}
    x = r.run(fl, r.args(unit, mode, level, shard=shard, hang=hang))
    if x["fail"]:
        return x["fail"], {"shard": list(shard)}
    if fail["kind"] in ("func", "mem", "rule"):
        fail = dict(fail, msg=fail["msg"] + " (seen once; did not repeat with the same inputs, so the outcome depends on something else)")
        return fail, {"shard": list(shard)}
    return None, None


def check(prop, thorough):
    t0 = time.time()
    deadline = t0 + (6 * 3600 if thorough else 840)
    runs = plan(prop, thorough)
    flavours = sorted({x[1] for x in runs})
    units = sorted({x[0] for x in runs})
    b = Build(flavours, units)
    try:
        return decide(prop, thorough, deadline, runs, b, t0)
    finally:
        b.close()


def decide(prop, thorough, deadline, runs, b, t0):
    order = sorted(range(len(runs)), key=lambda i: (runs[i][0] not in HEAVY, i))
    tasks = []
    for i in order:
        u, f, m, level = runs[i]
        n = shards_of(u)
        tasks += [(u, f, m, (k, n), level) for k in range(n)]
    r = Runner(b, deadline, deadline - (600 if thorough else 160))
    results, violation, errors = {}, None, []
    hashes = {}

    def work(t):
        u, f, m, s, level = t
        hf = os.path.join(b.dir, "hash-%s-%s-%d" % (u, f, s[0])) if m == "hash" else None
        return r.run(f, r.args(u, m, level, shard=s, hashfile=hf)), hf

    with cf.ThreadPoolExecutor(JOBS) as pool:
        fut = {pool.submit(work, t): t for t in tasks}
        for f in cf.as_completed(fut):
            t = fut[f]
            if violation:
                continue
            try:
                x, hf = f.result()
            except CheckError as e:
                errors.append(str(e))
                r.stop()
                break
            if x is None:
                continue
            if t[2] == "hash":
                rec = {}
                if hf and os.path.exists(hf):
                    for line in open(hf):
                        p = line.split()
                        if len(p) == 2 and len(p[1]) == 16:
                            rec[int(p[0])] = p[1]
                    os.unlink(hf)
                if x["fail"]:
                    rec[x["fail"]["case"]] = x["fail"]["kind"]
                if x["fail"] or x is UNFINISHED:
                    rec["cut"] = True
                hashes[t] = rec
                results[t] = x
                continue
            if x["fail"]:
                # a crash while judging memory only is a memory error; a hang is not
                if t[2] in ("mem", "rule") and x["fail"]["kind"] == "hang" and prop != "C36":
                    results[t] = x
                    continue
                v, how = confirm(b, deadline, t, x["fail"])
                if v:
                    violation = (t, v, how)
                    r.stop()
                    continue
                # a crash or time-out that does not repeat: the complete re-run counts
                n = Runner(b, deadline)
                x = n.run(t[1], n.args(t[0], t[2], t[4], shard=t[3], hang=240))
                if x["fail"]:
                    violation = (t, x["fail"], {"shard": list(t[3])})
                    r.stop()
                    continue
            results[t] = x
        if errors or violation:
            for f in fut:
                f.cancel()
            r.stop()
    if errors and not violation:
        raise CheckError(errors[0])
    if not violation and prop == "C31":
        violation = compare(hashes)
    ev = evidence(prop, thorough, results, violation, t0, runs, len(tasks))
    if violation:
        path = write_replay(prop, thorough, violation)
        print("%s: %s" % (violation[1]["unit"], violation[1]["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    c = ev["coverage"]
    for t in sorted(t for t in results if results[t] is UNFINISHED):
        print("note: unfinished when the time budget ended: %s in build %s, part %d of %d" % (t[0], t[1], t[3][0] + 1, t[3][1]))
    print("%s held: %d states, %d transitions, %d explored cases on the real code, %.1f s" %
          (prop, c["states"], c["transitions"], c["traces_validated_against_impl"], ev["wall_s"]))
    return 0


def compare(hashes):
    """Digests of all observations, case by case, must agree between the builds."""
    ref = "O2"
    groups = {}
    for (u, f, m, s, level), rec in hashes.items():
        groups.setdefault((u, s), {})[f] = rec
    for (u, s), by in sorted(groups.items()):
        if ref not in by:
            continue
        for f, rec in sorted(by.items()):
            cut = rec.get("cut") or by[ref].get("cut")
            for c in sorted(k for k in set(by[ref]) | set(rec) if k != "cut"):
                x, y = by[ref].get(c), rec.get(c)
                if x != y and not (cut and (x is None or y is None)):
                    msg = "case %s of %s behaves differently in the builds '%s' (%s) and '%s' (%s)" % (
                        c, u, " ".join(FLAVOURS[ref][0]), x, " ".join(FLAVOURS[f][0]), y)
                    return ((u, f, "hash", s, None), {"kind": "config", "unit": u, "case": c, "msg": msg}, {"only": c})
    return None


def evidence(prop, thorough, results, violation, t0, runs, ntasks):
    per, samples, notes = {}, [], []
    states = trans = traces = 0
    first = {}
    for u, f, m, _ in runs:
        first.setdefault(u, f)
    for (u, f, m, s, level), x in sorted(results.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][3])):
        d = x["done"]
        if not d:
            continue
        e = per.setdefault("%s/%s" % (u, f), {"cases": 0, "calls": 0, "states": 0, "judged": m, "level": level})
        for k in ("cases", "calls", "states"):
            e[k] += d[k]
        traces += d["cases"]
        trans += d["calls"]
        if first[u] == f:
            states += d["states"] if d["states"] else d["cases"]
            for i in x["info"]:
                if len(notes) < 40 and i not in notes:
                    notes.append(i)
            for q in x["samples"]:
                if len(samples) < 12 and sum(1 for z in samples if z.startswith(u + ":")) < 3:
                    samples.append(u + ": " + q)
    if not samples:
        samples = notes[:5] or ["%s: cases %d, calls %d" % (k, v["cases"], v["calls"]) for k, v in list(per.items())[:5]]
    ev = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": traces,
            "samples": samples,
            "exhaustive": violation is None and len(results) == ntasks and UNFINISHED not in results.values()
            and not any("not explored" in i for x in results.values() for i in x["info"]),
            "units": per,
            "searches": notes,
            "meaning": "states: distinct states of the implementation and model reached by the searches, plus enumerated cases of units "
                       "without a search; transitions: calls of the real library, over all builds; traces: enumerated cases executed on "
                       "the real library and compared with the reference model, over all builds; exhaustive: every case of the stated "
                       "bounded space was executed (nothing is sampled; the seed is not used)",
            "builds": {f: " ".join(FLAVOURS[f][0]) for f in sorted({x[1] for x in runs})},
        },
        "assumptions": ASSUME["all"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    os.rename(tmp, os.path.join(d, prop + ".json"))
    return ev


def write_replay(prop, thorough, violation):
    (u, f, m, s, level), v, how = violation
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, v["unit"], v["case"]))
    rec = {"property": prop, "unit": u, "build": f, "judged": m, "level": level if level is not None else (1 if thorough else 0), "kind": v["kind"], "case": v["case"],
           "message": v["msg"], "how": how, "command": "python3 run.py replay " + os.path.relpath(path, VERIF)}
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
        fh.write("\n")
    return os.path.relpath(path, VERIF)


def replay(path):
    rec = json.load(open(path))
    fls = [rec["build"]] + (["O2"] if rec["judged"] == "hash" and rec["build"] != "O2" else [])
    b = Build(fls, [rec["unit"]])
    try:
        r = Runner(b, time.time() + 3600)
        only = rec["how"].get("only")
        shard = tuple(rec["how"]["shard"]) if "shard" in rec["how"] else None
        if rec["judged"] == "hash":
            out = []
            for f in fls:
                hf = os.path.join(b.dir, "h-" + f)
                x = r.run(f, r.args(rec["unit"], "hash", rec["level"], only=only, hashfile=hf))
                out.append(x["fail"]["kind"] if x["fail"] else open(hf).read())
            bad = len(set(out)) > 1
            print("\n".join("%s: %s" % z for z in zip(fls, out)))
        else:
            x = r.run(rec["build"], r.args(rec["unit"], rec["judged"], rec["level"], shard=shard, only=only, hang=240))
            bad = bool(x["fail"])
            if bad:
                print(x["fail"]["msg"])
        if bad:
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
        print("not reproduced: the property holds in this case")
        return 0
    finally:
        b.close()


def main(argv):
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        if argv[:1] == ["setup"]:
            with cf.ThreadPoolExecutor(JOBS) as pool:
                fs = sorted(set(unit_files().values())) + ["mc.cpp", "alloc.cpp"]
                for o in harness_objects(fs, pool):
                    o.result()
            print("explorers compiled")
            return 0
        if argv[:1] == ["check"] and len(argv) >= 2:
            thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
            return check(argv[1], thorough)
        if argv[:1] == ["replay"] and len(argv) == 2:
            return replay(argv[1])
        if argv[:1] == ["list"]:
            for p in sorted(list(UNITS) + ["C24", "C31", "C33", "C34", "C35", "C36"]):
                print(p, " ".join("%s/%s/%s/%d" % x for x in plan(p, False)))
            return 0
    except CheckError as e:
        print("ERROR (no answer): %s" % e, file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR (no answer): %s" % e, file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
