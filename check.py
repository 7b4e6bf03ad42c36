#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Builds the property's harness against /repo's current working tree (content
keyed object cache in /verif/.build), searches for a counterexample, shrinks
it, replays it three times and reports.  Exit 0: held.  Exit 1: VIOLATION.
Exit 2: the check itself could not run.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os
import shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("F2C_REPO", "/repo")
BUILD = os.environ.get("F2C_BUILD", os.path.join(VERIF, ".build"))
JOBS = max(1, os.cpu_count() or 1)

CXX = "clang++"
# Sources that need third party code that is not installed.  Those in STUBBED
# are compiled against the small stand-ins in /verif/stubs.
EXCLUDED = {"utils/visualizer.cpp"}
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined", "-fno-sanitize=vptr",
        "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
        "-ffunction-sections", "-fdata-sections", "-pthread"]
LIBS = ["-lgdal", "-lgeos_c", "-ltinyxml2", "-ltbb", "-lpthread"]


def die(msg):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def includes():
    inc = [os.path.join(REPO, "include"), os.path.join(REPO, "src"),
           os.path.join(VERIF, "stubs"), os.path.join(VERIF, "harness")]
    out = []
    for i in inc:
        out += ["-I", i]
    for s in ["/usr/include/gdal", "/usr/include/eigen3"]:
        if os.path.isdir(s):
            out += ["-isystem", s]
    return out


def tree_files(root, exts):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return sorted(r)


def header_hash(roots):
    parts = []
    for root in roots:
        for f in tree_files(root, (".h", ".hpp", ".hxx", ".ipp", ".inl", ".tpp")):
            parts.append(os.path.relpath(f, root))
            parts.append(read(f))
    return sha(*parts)


class Builder:
    def __init__(self, fuzz=False):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.flags = list(BASE)
        if fuzz:
            self.flags.append("-fsanitize=fuzzer-no-link")
        self.repo_h = header_hash([os.path.join(REPO, "include"),
                                   os.path.join(REPO, "src"),
                                   os.path.join(VERIF, "stubs")])
        self.harn_h = header_hash([os.path.join(VERIF, "harness")])
        self.todo = []

    def add(self, src, own=False, extra=()):
        flags = self.flags + list(extra)
        key = sha(CXX, " ".join(flags), REPO, src, read(src), self.repo_h,
                  self.harn_h if own else "")
        obj = os.path.join(BUILD, "obj", key + ".o")
        if not os.path.exists(obj):
            self.todo.append((src, obj, flags))
        else:
            try:
                os.utime(obj)
            except OSError:
                pass
        return obj

    def compile_all(self):
        def one(t):
            src, obj, flags = t
            tmp = "%s.%d.tmp" % (obj, os.getpid())
            cmd = [CXX] + flags + includes() + ["-c", src, "-o", tmp]
            p = subprocess.run(cmd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode:
                return src, p.stdout.decode("utf8", "replace")[-3000:]
            os.replace(tmp, obj)
            return None
        # biggest first
        self.todo.sort(key=lambda t: -os.path.getsize(t[0]))
        own = [t for t in self.todo if t[0].startswith(VERIF)]
        rest = [t for t in self.todo if not t[0].startswith(VERIF)]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, own + rest):
                if r:
                    die("cannot compile %s\n%s" % r)
        self.todo = []


def prune():
    objs = glob.glob(os.path.join(BUILD, "obj", "*.o")) + \
        glob.glob(os.path.join(BUILD, "bin", "*"))
    st = []
    for o in objs:
        try:
            s = os.stat(o)
            st.append((s.st_mtime, s.st_size, o))
        except OSError:
            pass
    tot = sum(s[1] for s in st)
    for m, size, o in sorted(st):
        if tot < 3e9:
            break
        if time.time() - m < 3600:
            break
        try:
            os.remove(o)
        except OSError:
            pass
        tot -= size


def build(pid, fuzz=False):
    src = os.path.join(VERIF, "props", pid + ".cpp")
    if not os.path.exists(src):
        die("no harness for " + pid)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        b = Builder(fuzz)
        objs = []
        lib = os.path.join(REPO, "src")
        for f in tree_files(lib, (".cpp", ".cc", ".cxx")):
            if os.path.relpath(f, os.path.join(lib, "fields2cover")) in EXCLUDED:
                continue
            objs.append(b.add(f))
        main = b.add(os.path.join(VERIF, "harness", "main.cpp"), True,
                     ["-DPBT_LIBFUZZER"] if fuzz else [])
        prop = b.add(src, True)
        extra = [b.add(f, True) for f in
                 tree_files(os.path.join(VERIF, "harness", "lib"), (".cpp",))]
        b.compile_all()
        objs = [prop, main] + extra + objs
        key = sha(*objs, "fuzz" if fuzz else "run")
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        exe = os.path.join(BUILD, "bin", "%s-%s" % (pid, key))
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            cmd = [CXX] + b.flags + (["-fsanitize=fuzzer"] if fuzz else []) + \
                objs + ["-fuse-ld=lld" if shutil.which("ld.lld") else "-Wl,--as-needed",
                        "-Wl,--gc-sections", "-o", tmp] + LIBS
            p = subprocess.run(cmd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode:
                die("cannot link %s\n%s" %
                    (pid, p.stdout.decode("utf8", "replace")[-3000:]))
            os.replace(tmp, exe)
        prune()
        return exe
    finally:
        lock.close()


def env_for_run(scratch):
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS"):
        e.pop(k, None)
    e["TMPDIR"] = scratch
    e["HOME"] = scratch
    e["PROJ_NETWORK"] = "OFF"
    e["F2C_SCRATCH"] = scratch
    e["F2C_DATA"] = os.path.join(REPO, "data")
    return e


def replay(exe, path, scratch):
    """-> True if the case fails."""
    p = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=env_for_run(scratch),
                       cwd=scratch)
    if p.returncode == 2:
        return None
    return p.returncode != 0


def confirm(pid, exe, facet, choices, message, tier, seed, scratch,
            where=None):
    """Shrinks, replays 3 times; returns the replay path or None.

    where: (worker, facet number, case number).  A failure that does not show
    alone in a fresh process is tried again with the cases that ran before it:
    state kept between calls is a history like any other."""
    cin = os.path.join(scratch, "found.case")
    with open(cin, "w") as f:
        f.write("property %s\nfacet %s\nchoices %s\n" %
                (pid, facet, " ".join(map(str, choices))))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(rdir, "%s-%s-%s.case" % (pid, facet, sha(
        " ".join(map(str, choices)))[:10]))
    budget = 60 if tier == "quick" else 180
    p = subprocess.run([exe, "shrink", cin, out, str(budget)],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=env_for_run(scratch), cwd=scratch)
    if p.returncode != 0 or not os.path.exists(out):
        # not reproducible in a fresh process through the shrinker
        shutil.copy(cin, out)
    fails = [replay(exe, out, scratch) for _ in range(3)]
    if all(f is True for f in fails):
        return out
    # the shrunk case was not stable: fall back to the case as found
    shutil.copy(cin, out)
    fails = [replay(exe, out, scratch) for _ in range(3)]
    if all(f is True for f in fails):
        return out
    if where is not None:
        if os.path.exists(out):
            os.remove(out)
        out = out[:-len(".case")] + "-history.case"
        k, fi, index = where
        p = subprocess.run(
            [exe, "history", str(seed), tier, str(k), str(JOBS), str(fi),
             str(index), out, str(budget)], stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env_for_run(scratch), cwd=scratch)
        if p.returncode == 0 and all(
                replay(exe, out, scratch) is True for _ in range(2)):
            return out
    print("UNSTABLE property=%s facet=%s: %s" % (pid, facet, message))
    return None


def read_shared(path):
    import struct
    d = read(path)
    facet, state, index, n = struct.unpack_from("<IIQQ", d, 0)
    n = min(n, 1 << 16)
    return facet, state, index, list(struct.unpack_from("<%dQ" % n, d, 24))


def search(pid, exe, tier, seed, scratch, cap):
    procs = []
    for k in range(JOBS):
        out = os.path.join(scratch, "w%d" % k)
        err = open(out + ".err", "wb")
        procs.append((k, out, subprocess.Popen(
            [exe, "worker", str(seed), tier, str(k), str(JOBS), out, str(cap)],
            stdout=err, stderr=err, env=env_for_run(scratch), cwd=scratch)))
    info = json.loads(subprocess.run([exe, "info"], stdout=subprocess.PIPE,
                                     env=env_for_run(scratch)).stdout)
    found = []
    facets, samples, hashes, capped = {}, [], set(), False
    for k, out, p in procs:
        rc = p.wait()
        js = out + ".json"
        if os.path.exists(js):
            d = json.load(open(js))
            capped |= d["capped"]
            for f in d["facets"]:
                t = facets.setdefault(f["name"], {
                    "evaluations": 0, "nontrivial": 0, "discarded": 0,
                    "labels": {}})
                for key in ("evaluations", "nontrivial", "discarded"):
                    t[key] += f[key]
                for l, n in f["labels"].items():
                    t["labels"][l] = t["labels"].get(l, 0) + n
                if k < 2:
                    for s in f["samples"][:1]:
                        samples.append({"facet": f["name"],
                                        "case": s.strip()})
            h = read(out + ".hashes")
            for i in range(0, len(h), 8):
                hashes.add(h[i:i + 8])
            if d["failed"]:
                sh = read_shared(out + ".case")
                found.append((d["facet"], sh[3], d["message"],
                              (k, sh[0], sh[2])))
        else:
            if not os.path.exists(out + ".case"):
                die("worker %d did not start (rc %s)\n%s" % (
                    k, rc, read(out + ".err").decode("utf8", "replace")[-2000:]))
            sh = read_shared(out + ".case")
            err = read(out + ".err").decode("utf8", "replace")
            lines = [l for l in err.splitlines() if
                     "ERROR: AddressSanitizer" in l or "runtime error" in l
                     or "Assertion" in l]
            found.append((info["facets"][sh[0]], sh[3],
                          "worker ended with %s %s" % (rc, " ".join(lines[:2])),
                          (k, sh[0], sh[2])))
    return info, facets, samples, hashes, capped, found


def fuzz(pid, tier, seed, scratch, seconds):
    exe = build(pid, fuzz=True)
    procs = []
    for k in range(JOBS):
        d = os.path.join(scratch, "fz%d" % k)
        os.makedirs(os.path.join(d, "corpus"))
        e = env_for_run(scratch)
        e["PBT_FUZZ_OUT"] = os.path.join(d, "out")
        log = open(os.path.join(d, "log"), "wb")
        procs.append((d, subprocess.Popen(
            [exe, "corpus", "-seed=%d" % (seed * 100 + k + 1),
             "-max_total_time=%d" % seconds, "-runs=2000000",
             "-timeout=60", "-rss_limit_mb=3500", "-max_len=4096",
             "-len_control=20", "-print_final_stats=1", "-artifact_prefix=" + d + "/"],
            stdout=log, stderr=log, env=e, cwd=d)))
    evals = nontriv = corpus = 0
    arts = []
    for d, p in procs:
        p.wait()
        st = os.path.join(d, "out.stat")
        if os.path.exists(st):
            a, b = read(st).split()[:2]
            evals += int(a)
            nontriv += int(b)
        corpus += len(os.listdir(os.path.join(d, "corpus")))
        for a in glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*"):
            arts.append(a)
    return exe, evals, nontriv, corpus, arts


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", [])
            if k.get("property") == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(sha(os.environ["VERIF_SEED"])[:8], 16)
    t0 = time.time()
    exe = build(pid)
    if a.build_only:
        return 0
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="f2c-%s-" % pid)
    try:
        if a.replay:
            return 1 if replay_verbose(exe, a.replay, scratch) else 0
        return run(pid, tier, seed, exe, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_verbose(exe, path, scratch):
    p = subprocess.run([exe, "replay", os.path.abspath(path)],
                       env=env_for_run(scratch), cwd=scratch)
    return p.returncode != 0


def run(pid, tier, seed, exe, scratch, t0, t_build):
    violations = []
    # 1. saved regressions (shrunk failures of earlier work) come first
    nreg = 0
    for c in sorted(glob.glob(os.path.join(VERIF, "regressions", pid, "*.case"))):
        nreg += 1
        r = [replay(exe, c, scratch) for _ in range(1)]
        if r[0] is None:
            die("cannot replay " + c)
        if r[0] and replay(exe, c, scratch) and replay(exe, c, scratch):
            violations.append((c, "saved regression case"))
    # 2. listed findings: say whether they still fail
    for k in known_findings(pid):
        c = os.path.join(VERIF, k["replay"])
        if replay(exe, c, scratch):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # 3. random search
    cap = 150 if tier == "quick" else 420
    info, facets, samples, hashes, capped, found = search(
        pid, exe, tier, seed, scratch, cap)
    seen = set()
    unstable = 0
    for facet, choices, msg, where in found:
        if facet in seen:
            continue
        seen.add(facet)
        if len(violations) >= 2:
            break
        path = confirm(pid, exe, facet, choices, msg, tier, seed, scratch,
                       where)
        if path:
            violations.append((path, msg))
        else:
            unstable += 1
            seen.discard(facet)
    # 4. coverage guided campaign
    fz = None
    if tier == "thorough" and not violations:
        left = 840 - (time.time() - t0) - 90
        if left > 30:
            fexe, ev, nt, corpus, arts = fuzz(pid, tier, seed, scratch,
                                              int(min(left, 300)))
            fz = {"evaluations": ev, "nontrivial": nt, "corpus": corpus}
            for art in arts[:3]:
                case = os.path.join(scratch, "dec.case")
                subprocess.run([exe, "decode", art, case],
                               env=env_for_run(scratch), cwd=scratch)
                if not os.path.exists(case):
                    continue
                lines = read(case).decode().splitlines()
                facet = lines[1].split()[1]
                choices = [int(x) for x in lines[2].split()[1:]]
                path = confirm(pid, exe, facet, choices, "fuzzer", tier, seed,
                               scratch)
                if path:
                    violations.append((path, "found by libFuzzer"))
                    break
                unstable += 1
    ev = sum(f["evaluations"] for f in facets.values())
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev + nreg + (fz["evaluations"] if fz else 0),
            "distinct_nontrivial": len(hashes),
            "rule": info["rule"],
            "samples": samples[:12] or [{"note": "no non-trivial case"}],
            "facets": facets,
            "saved_regressions_replayed": nreg,
            "time_capped": capped,
            "unstable_reports": unstable,
            "build_s": round(t_build, 1),
        },
        "assumptions": [
            "clang 18 -O1 build of /repo's sources with AddressSanitizer, "
            "UBSan and libstdc++ assertions; GEOS/GDAL/PROJ are trusted",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if fz:
        evidence["coverage"]["libfuzzer"] = fz
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for path, msg in violations:
        for l in read(path).decode("utf8", "replace").splitlines()[:60]:
            if l.startswith("#"):
                print(l[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    if not violations:
        print("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d "
              "(%.1f s, build %.1f s)%s" % (
                  pid, tier, seed, ev, len(hashes), time.time() - t0, t_build,
                  " CAPPED" if capped else ""))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never exit 1 without a VIOLATION line
        import traceback
        traceback.print_exc()
        die(repr(e))
