#!/usr/bin/env python3
"""Decides one property: run.py <ID> quick|thorough
   replay: run.py <ID> replay <replay file>

Builds /repo's current sources together with the harness of the property,
runs the harness in shards, collects what its monitors saw, writes
evidence/<ID>.json, and reports. Exit 0: held on everything explored; 1: a
violation (with a VIOLATION line); 2: no answer (build or harness error)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
SSL = "/usr/lib/x86_64-linux-gnu/android"
CXX = shutil.which("clang++-18") or "clang++"
NCPU = min(8, os.cpu_count() or 8)
COMMON = ["-std=c++17", "-g", "-fno-omit-frame-pointer", "-isystem", "/usr/include/android",
          "-I" + REPO, "-I" + HARN, "-w", "-D_GLIBCXX_ASSERTIONS"]
FLAVOR = {
    # Uninitialised locals get a visible pattern, so that the oracles see them.
    "asan": ["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
    "cov": ["-O1", "-fsanitize-coverage=trace-pc-guard", "-fno-builtin-memcmp", "-fno-builtin-bcmp"],
    "fuzz": ["-O1", "-fsanitize=fuzzer-no-link,address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
}
sys.path.insert(0, VERIF)
from specs import SPECS  # noqa: E402


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_pkg = None


def pkglibs():
    global _pkg
    if _pkg is None:
        r = sh(["pkg-config", "--libs", "protobuf", "absl_strings", "absl_time", "absl_flat_hash_set",
                "absl_flat_hash_map"])
        if r.returncode:
            raise NoAnswer("pkg-config: " + r.stdout)
        _pkg = r.stdout.split()
    return _pkg


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(stages):
    """Builds every harness of the stages; returns {(harness, flavor): binary}."""
    repo_src = sorted(glob.glob(REPO + "/src/*.cc"))
    repo_hdr = glob.glob(REPO + "/jwt_verify_lib/*.h") + glob.glob(REPO + "/simple_lru_cache/*.h") + \
        glob.glob(REPO + "/src/*.h")
    harn_hdr = glob.glob(HARN + "/*.h")
    if not repo_src:
        raise NoAnswer("no sources in " + REPO)
    os.makedirs(BUILD, exist_ok=True)
    jobs, bins, links = {}, {}, []

    def obj(src, flavor, deps):
        flags = COMMON + FLAVOR[flavor]
        key = file_hash([src] + deps, " ".join(flags))
        out = os.path.join(BUILD, "%s.%s.%s.o" % (os.path.basename(src), flavor, key))
        jobs[out] = (src, flags)
        return out

    for st in stages:
        hk = (st["harness"], st.get("flavor", "asan"))
        if hk in bins:
            continue
        name, fl = hk
        objs = [obj(os.path.join(HARN, name + ".cc"), fl, harn_hdr + repo_hdr)]
        for x in st.get("extra", []):
            objs.append(obj(os.path.join(HARN, x), fl, harn_hdr + repo_hdr))
        if st.get("lib", True):
            objs += [obj(s, fl, repo_hdr) for s in repo_src]
        key = hashlib.sha256("|".join(objs).encode()).hexdigest()[:16]
        bins[hk] = os.path.join(BUILD, "%s.%s.%s" % (name, fl, key))
        links.append((bins[hk], objs, fl, st))

    def compile_one(out):
        if os.path.exists(out):
            return None
        src, flags = jobs[out]
        tmp = out + ".%d" % os.getpid()
        r = sh([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            return "%s: %s" % (src, r.stdout[-4000:])
        os.replace(tmp, out)

    order = sorted(jobs, key=lambda o: 0 if "/harness/" in jobs[o][0] else 1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, order) if e]
    if errs:
        raise NoAnswer("build failed: " + errs[0])
    for out, objs, fl, st in links:
        if os.path.exists(out):
            continue
        tmp = out + ".%d" % os.getpid()
        lf = [f for f in FLAVOR[fl] if f.startswith("-fsanitize")]
        if fl == "fuzz":
            rt = sh([CXX, "-fsanitize=fuzzer", "-###", "-x", "c++", "/dev/null"]).stdout
            m = re.search(r'"([^"]*)libclang_rt\.fuzzer(-[\w.-]+\.a|\.a)"', rt)
            if not m:
                raise NoAnswer("no libFuzzer runtime")
            fz = m.group(1) + "libclang_rt.fuzzer_no_main" + m.group(2)
            lf += ["-Wl,--whole-archive", fz, "-Wl,--no-whole-archive"]
        r = sh([CXX] + lf + ["-rdynamic"] + objs + ["-o", tmp, "-L" + SSL, "-Wl,-rpath," + SSL, "-l:libcrypto.so"] +
               pkglibs() + ["-ldl", "-lpthread"])
        if r.returncode:
            raise NoAnswer("link failed: " + r.stdout[-4000:])
        os.replace(tmp, out)
    # Keep the cache small.
    keep = set(jobs) | set(bins.values())
    old = [f for f in glob.glob(BUILD + "/*") if f not in keep and os.path.isfile(f)]
    for f in sorted(old, key=os.path.getmtime)[:-160]:
        try:
            os.remove(f)
        except OSError:
            pass
    return bins


ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4",
}


_dict_file = None


def dict_file():
    """The string and integer literals of the code under test, for the generators."""
    global _dict_file
    if _dict_file:
        return _dict_file
    strs, ints = set(), set()
    for f in sorted(glob.glob(REPO + "/src/*.cc") + glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/jwt_verify_lib/*.h")):
        txt = open(f, errors="replace").read()
        if f.endswith("/status.cc"):
            continue
        txt = re.sub(r"^\s*#.*$", "", txt, flags=re.M)
        for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"((?:\\.|[^"\\\n])*)"|\'(?:\\.|[^\'\\\n])\'|\b(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*\b', txt, flags=re.S):
            if m.group(1) is not None:
                v = re.sub(r"\\(n|t|r|0|x[0-9a-fA-F]{1,2}|.)", lambda x: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(
                    x.group(1), chr(int(x.group(1)[1:], 16)) if x.group(1)[0] == "x" and len(x.group(1)) > 1 else x.group(1)), m.group(1))
                if 0 < len(v) <= 80:
                    strs.add(v)
            elif m.group(2):
                ints.add(int(m.group(2), 0) if not re.match(r"0[0-9]+$", m.group(2)) else int(m.group(2), 8 if not re.search("[89]", m.group(2)) else 10))
    d = "".join("s %s\n" % v.encode("latin-1", "replace").hex() for v in sorted(strs)) + "".join("i %d\n" % v for v in sorted(ints) if v < 2 ** 64)
    _dict_file = os.path.join(BUILD, "dict." + hashlib.sha256(d.encode()).hexdigest()[:12])
    tmp = _dict_file + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(d)
    os.replace(tmp, _dict_file)
    return _dict_file


def env_for(st, shard=0):
    e = dict(os.environ)
    e.update(ENV)
    e["VERIF_DICT"] = dict_file()
    # In every other shard freed memory is reused at once, so that objects come
    # to lie where others were.
    if shard % 2:
        e["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
    e["VERIF_KEYS"] = os.path.join(VERIF, "keys")
    e["VERIF_HARNESS"] = HARN
    e.update(st.get("env", {}))
    return e


def crash_key(err):
    """A stable name for a crash: kind of report and first frame in /repo."""
    kind = "crash"
    for pat, k in ((r"ERROR: AddressSanitizer: ([\w-]+)", None), (r"runtime error: ([^\n]{1,80})", "ubsan"),
                   (r"WARNING: ThreadSanitizer: ([\w -]+?)(?: \(|\n)", "tsan"), (r"Assertion [`'](.+?)['`] failed", "assert"),
                   (r"terminate called after throwing an instance of '([^']+)'", "exception"),
                   (r"ERROR: libFuzzer: ([\w -]+)", "libfuzzer"), (r"(Invalid (?:read|write)|uninitialised value)", "valgrind")):
        m = re.search(pat, err)
        if m:
            kind = (k + ":" if k else "") + m.group(1).strip()
            break
    frame = ""
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:%s|/repo)/(src|jwt_verify_lib|simple_lru_cache)/" % re.escape(REPO), err)
    if m:
        frame = re.sub(r"\(.*", "", m.group(1))
    return re.sub(r"0x[0-9a-f]+", "ADDR", "%s@%s" % (kind, frame))


class Shard:
    def __init__(self, prop, st, binary, tier, seed, i, n, cases, outdir):
        self.prop, self.st, self.binary, self.tier, self.seed, self.i, self.n = prop, st, binary, tier, seed, i, n
        self.cases, self.outdir = cases, outdir
        self.viols, self.done, self.error = [], [], None
        self.cov = 0
        self.hang_s = st.get("hang_s", 90)

    def cmd(self, extra=()):
        pre = self.st.get("wrap", [])
        return list(pre) + [self.binary, "--prop", self.st.get("prop", self.prop), "--tier", self.tier, "--seed", str(self.seed), "--shard", str(self.i),
                            "--nshards", str(self.n), "--cases", str(self.cases), "--out", self.outdir] + \
            [str(x) for x in self.st.get("args", [])] + list(extra)

    def progress(self):
        try:
            with open("%s/progress.%d" % (self.outdir, self.i), "rb") as f:
                return struct.unpack("<Q", f.read(8))[0]
        except (OSError, struct.error):
            return 0

    def launch(self, extra, limit):
        """Runs the harness until it ends or hangs: (rc or None if hung, stderr)."""
        errf = "%s/err.%d" % (self.outdir, self.i)
        with open(errf, "wb") as ef:
            p = subprocess.Popen(self.cmd(extra), stdout=ef, stderr=ef, env=env_for(self.st, self.i), cwd=self.outdir,
                                 start_new_session=True)
        last, since = None, time.time()
        rc = None
        while True:
            try:
                rc = p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = self.progress()
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > limit:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        with open(errf, "rb") as f:
            d = f.read()
        for m in re.finditer(rb"cov: (\d+) ft: ", d):
            self.cov = max(self.cov, int(m.group(1)))
        if len(d) > 60000:
            d = d[:45000] + b"\n...\n" + d[-15000:]
        return rc, d.decode("utf-8", "replace")

    def run(self):
        extra = []
        for _ in range(6):
            rc, err = self.launch(extra, self.hang_s)
            case = self.progress() - 1
            if rc is None:  # no progress: run that case alone
                rc2, err2 = self.launch(["--only", str(case)], 2 * self.hang_s) if case >= 0 else (None, "")
                if case < 0:
                    self.error = "harness did not start"
                elif rc2 is None:
                    self.viols.append(dict(key="hang", case=case, msg="no progress in %d s, twice" % self.hang_s, input="", stderr=err2))
                else:  # it was the machine: go on after that case
                    extra = ["--first", str(case - self.i + self.n)]
                    if rc2 == 0:
                        continue
                    rc, err = rc2, err2
                    self.crash(rc, err, case)
            elif rc != 0:
                self.crash(rc, err, case)
            break
        self.collect()
        return self

    def crash(self, rc, err, case):
        if rc == 9:
            self.error = self.error or "harness error"
            return
        if rc in (-9, 137):
            self.error = "killed (memory?)"
            return
        if case < 0:
            self.error = "harness failed before the first case: rc=%s %s" % (rc, err[-1500:])
            return
        self.viols.append(dict(key=crash_key(err), case=case, msg="the code under test crashed (rc=%s)" % rc, input=self.fuzz_input(), stderr=err))

    def fuzz_input(self):
        """The input libFuzzer was running, in hex."""
        try:
            with open("%s/input.%d" % (self.outdir, self.i), "rb") as f:
                b = f.read()
            n = struct.unpack("<Q", b[:8])[0]
            return "fuzz:" + b[8:8 + n].hex()
        except (OSError, struct.error):
            pass
        try:  # what the harness noted about the call it was making
            with open("%s/note.%d" % (self.outdir, self.i), "rb") as f:
                return f.read().split(b"\0")[0].decode("utf-8", "replace")
        except OSError:
            return ""

    def collect(self):
        f = "%s/out.%d" % (self.outdir, self.i)
        if os.path.exists(f):
            for line in open(f, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["t"] == "viol":
                    d["stderr"] = ""
                    self.viols.append(d)
                elif d["t"] == "error":
                    self.error = d["msg"]
                elif d["t"] == "done":
                    self.done.append(d)


def known_findings():
    res = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    if len(sys.argv) < 3 or sys.argv[1] not in SPECS:
        print(__doc__)
        return 2
    prop, tier = sys.argv[1], sys.argv[2]
    spec = SPECS[prop]
    only = None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier == "replay":
        only = json.load(open(sys.argv[3]))
        seed, tier = only["seed"], only["tier"]
    t0 = time.time()
    stages = [s for s in spec["stages"] if s.get(tier, s.get("quick", 0))]
    if only:
        stages = [s for s in stages if s["harness"] == only["harness"] and s.get("flavor", "asan") == only["flavor"]
                  and s.get("args", []) == only.get("args", [])]
    bins = build(stages)
    dict_file()
    tb = time.time() - t0
    viols, errors, counters, samples, evals, stage_info = [], [], {}, [], 0, []
    fps = set()
    for si, st in enumerate(stages):
        ts = time.time()
        outdir = tempfile.mkdtemp(prefix="jwtverif.")
        try:
            n = 1 if only else min(st.get("shards", NCPU), NCPU)
            cases = st.get(tier, st.get("quick"))
            binary = bins[(st["harness"], st.get("flavor", "asan"))]
            shards = [Shard(prop, st, binary, tier, seed, i, n, cases, outdir) for i in range(n)]
            if only:
                s = shards[0]
                s.i, s.n = only["shard"], only["nshards"]
                s.st = dict(st, args=list(st.get("args", [])) + ["--only", only["case"]])
                m = re.match("fuzz:([0-9a-f]*)", only.get("input", ""))
                if m:
                    with open(outdir + "/replay-input", "wb") as f:
                        f.write(bytes.fromhex(m.group(1)))
                    s.st["env"] = dict(st.get("env", {}), VERIF_INPUT=outdir + "/replay-input")
            with cf.ThreadPoolExecutor(len(shards)) as ex:
                list(ex.map(lambda s: s.run(), shards))
            se = 0
            for s in shards:
                if s.error:
                    errors.append("%s shard %d: %s" % (st["harness"], s.i, s.error))
                for v in s.viols:
                    v.update(harness=st["harness"], flavor=st.get("flavor", "asan"), shard=s.i, nshards=s.n, args=st.get("args", []),
                             cmd=" ".join(s.cmd(["--only", str(v["case"])])))
                    viols.append(v)
                for d in s.done:
                    se += d["evals"]
                    for k, c in d["counters"].items():
                        counters[k] = counters.get(k, 0) + c
                    samples += d["samples"][:1] if len(samples) < 8 else []
                if s.cov:
                    counters["fuzz:coverage_edges"] = max(counters.get("fuzz:coverage_edges", 0), s.cov)
                f = "%s/fp.%d" % (outdir, s.i)
                if os.path.exists(f):
                    b = open(f, "rb").read()
                    fps.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            evals += se
            stage_info.append(dict(harness=st["harness"], flavor=st.get("flavor", "asan"), cases=cases, shards=n,
                                   evaluations=se, wall_s=round(time.time() - ts, 1)))
        finally:
            shutil.rmtree(outdir, ignore_errors=True)
    known = known_findings()
    seen, new, old = set(), [], []
    for v in viols:
        k = [f for f in known if f[0] == prop and f[1] == v["key"].replace(" ", "_")]
        (old if k else new).append(v)
        if k and k[0] not in seen:
            seen.add(k[0])
            log("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
    cov = dict(evaluations=evals, distinct_nontrivial=len(fps), rule=spec["rule"], samples=samples[:5] or ["none"],
               observed=dict(sorted(counters.items())), stages=stage_info, build_s=round(tb, 1))
    if spec.get("exhaustive"):
        cov["exhaustive"] = True
    missing = [k for k, m in spec.get("require", {}).items() if counters.get(k, 0) < m]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    if not only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
            json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.0f s (build %.0f s)" %
        (prop, tier, seed, evals, len(fps), len(new), time.time() - t0, tb))
    if new:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        done = set()
        for v in new:
            if v["key"] in done or len(done) >= 5:
                continue
            done.add(v["key"])
            h = hashlib.sha256(json.dumps([v["key"], v["case"], seed]).encode()).hexdigest()[:10]
            path = "%s/replays/%s-%s.json" % (VERIF, prop, h)
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, seed=seed, tier=tier), f, indent=1)
            log("  %s: %s" % (v["key"], v["msg"][:600]))
            if v.get("stderr"):
                log("    " + "\n    ".join(v["stderr"].strip().splitlines()[:14]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        log("NO ANSWER: " + "; ".join(errors)[:3000])
        return 2
    if not only and (evals == 0 or not fps):
        log("NO ANSWER: nothing observed")
        return 2
    if missing and not only:
        log("NO ANSWER: not observed often enough: " + ", ".join("%s=%d" % (k, counters.get(k, 0)) for k in missing))
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        log("NO ANSWER: " + str(e))
        sys.exit(2)
