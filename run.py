#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [quick|thorough]
                     replay:        run.py replay <file>
                     prebuild:      run.py setup
Builds what it needs from /repo's working tree into /verif/build, runs the monitored workloads of
src/plan.py in scratch directories, collects what the monitors saw and writes evidence/<id>.json.
Exit 0: no violation; 1: violation (VIOLATION line); 2: the check itself could not run."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(HERE, "src")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, SRC)
import plan  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
ENV = dict(os.environ)
ENV.update({
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "OMP_PROC_BIND": "false",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob_tcp_if_include": "lo",
    "OMPI_MCA_mpi_yield_when_idle": "1",
})
for k in ("LD_LIBRARY_PATH", "LD_PRELOAD", "NLCGLIB_DISABLE_NEWTON_EFERMI"):
    ENV.pop(k, None)

MPI = "/usr/lib/x86_64-linux-gnu/openmpi"
INC = ["-DNDEBUG", "-std=c++17", "-w", "-I", SRC, "-I", REPO + "/src", "-I", REPO + "/include",
       "-isystem", "/usr/include/trilinos", "-isystem", MPI + "/include", "-isystem", MPI + "/include/openmpi",
       "-isystem", "/usr/include/x86_64-linux-gnu/openblas-pthread"]
LIBS = ["-L" + MPI + "/lib", "-lmpi_cxx", "-lmpi", "-ltrilinos_kokkosalgorithms", "-ltrilinos_kokkoscontainers",
        "-ltrilinos_kokkoscore", "-lopenblas", "-llapacke", "-ldl", "-lpthread"]
SAN = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
             "-fno-sanitize=vptr"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}


# ---------------------------------------------------------------- build
def repo_files():
    out = []
    for d in ("src", "include"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            out += [os.path.join(r, f) for f in sorted(fs)]
    return out


_h = None


def src_hash():
    global _h
    if _h is None:
        m = hashlib.sha256()
        for f in repo_files() + [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith((".cpp", ".hpp"))]:
            m.update(f.encode())
            with open(f, "rb") as fh:
                m.update(hashlib.sha256(fh.read()).digest())
        _h = m.hexdigest()[:16]
    return _h


class BuildError(Exception):
    pass


def sh(cmd, log):
    with open(log, "ab") as lf:
        lf.write((" ".join(cmd) + "\n").encode())
        lf.flush()
        return subprocess.run(cmd, stdout=lf, stderr=lf, env=ENV).returncode


def compile_obj(cpp, obj, flags, compiler):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    log = obj + ".log"
    if sh([compiler] + flags + INC + ["-c", cpp, "-o", tmp], log):
        with open(log, errors="replace") as f:
            err = [l for l in f.read().splitlines() if "error" in l]
        raise BuildError("%s: %s" % (os.path.basename(cpp), "; ".join(err[:3])[:400]))
    os.rename(tmp, obj)


def build(names):
    """names: iterable of binaries of plan.BINS. Returns {name: path or BuildError}."""
    h = src_hash()
    out = os.path.join(BUILD, h)
    os.makedirs(out, exist_ok=True)
    # keep the cache small
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        if d != h and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    libsrc = [f for f in repo_files() if f.endswith(".cpp")]
    res, objs = {}, {}
    jobs = {}
    with ThreadPoolExecutor(NCPU) as ex:
        def want(cpp, san, compiler="g++", extra=()):
            tag = hashlib.md5((cpp + san + compiler + " ".join(extra)).encode()).hexdigest()[:6]
            obj = os.path.join(out, "%s-%s-%s.o" % (os.path.basename(cpp)[:-4], san, tag))
            if obj not in jobs:
                flags = list(SAN[san]) + list(extra)
                if cpp.startswith(SRC) and san == "plain":
                    flags = ["-O2", "-g1"] + list(extra)
                jobs[obj] = ex.submit(compile_obj, cpp, obj, flags, compiler)
            return obj
        for n in names:
            b = plan.BINS[n]
            os_ = [want(os.path.join(SRC, c), b.get("san", "plain"), b.get("cxx", "g++"), tuple(b.get("flags", ()))) for c in b["src"]]
            if b.get("lib"):
                os_ += [want(f, b.get("san", "plain"), b.get("cxx", "g++"), tuple(b.get("libflags", ()))) for f in libsrc]
            elif b.get("core"):
                os_ += [want(f, b.get("san", "plain"), b.get("cxx", "g++"), tuple(b.get("libflags", ()))) for f in libsrc if not f.endswith("/nlcglib.cpp")]
            objs[n] = os_
        for n in names:
            b = plan.BINS[n]
            try:
                for o in objs[n]:
                    jobs[o].result()
                exe = os.path.join(out, n)
                if not os.path.exists(exe):
                    san = [f for f in SAN[b.get("san", "plain")] if f.startswith("-fsanitize")]
                    tmp = exe + ".%d.tmp" % os.getpid()
                    if sh([b.get("cxx", "g++")] + san + objs[n] + list(b.get("ldflags", [])) + LIBS + ["-o", tmp], exe + ".log"):
                        raise BuildError("linking %s failed, see %s.log" % (n, exe))
                    os.rename(tmp, exe)
                res[n] = exe
            except BuildError as e:
                res[n] = e
    return res


# ---------------------------------------------------------------- running
class Job:
    def __init__(self, part, cmd, env, timeout, ctx, np):
        self.part, self.cmd, self.env, self.timeout, self.ctx, self.np = part, cmd, env, timeout, ctx, np
        self.rc = None
        self.out = ""
        self.err = ""
        self.hang = False
        self.cut = False
        self.wall = 0


class Slots:
    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()

    def get(self, k):
        with self.cv:
            self.cv.wait_for(lambda: self.n >= k)
            self.n -= k

    def put(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()


def ndone(out):
    return out.count("\nDONE") + out.startswith("DONE")


ABORT = threading.Event()      # a job was seen to hang: what has not been run by now is not needed


def run_job(job, slots, scratch):
    k = min(NCPU, max(1, job.np))
    slots.get(k)
    try:
        if ABORT.is_set():
            job.cut = True
            return job
        for attempt in (0, 1):
            d = tempfile.mkdtemp(dir=scratch)
            e = dict(ENV)
            e.update(job.env)
            e["TMPDIR"] = d
            if job.np > 1 or job.part.get("mpirun"):
                e["VH_RANK_OUT"] = d
            t = time.time()
            with open(d + "/.out", "wb") as fo, open(d + "/.err", "wb") as fe:
                p = subprocess.Popen(job.cmd, cwd=d, env=e, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, start_new_session=True)
                job.hang = False
                try:
                    while True:
                        try:
                            job.rc = p.wait(0.5)
                            break
                        except subprocess.TimeoutExpired:
                            job.cut = ABORT.is_set()
                            if job.cut or time.time() - t > job.timeout:
                                raise
                except subprocess.TimeoutExpired:
                    job.hang = not job.cut
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    job.rc = -9
                finally:
                    try:
                        os.killpg(p.pid, 9)   # stray ranks
                    except OSError:
                        pass
            job.wall = time.time() - t
            with open(d + "/.out", errors="replace") as f:
                job.out = f.read()
            for n in sorted(os.listdir(d)):
                if n.startswith(".rank."):
                    with open(os.path.join(d, n), errors="replace") as f:
                        job.out += f.read()
            with open(d + "/.err", errors="replace") as f:
                job.err = f.read()
            shutil.rmtree(d, ignore_errors=True)
            # A job that ends by signal 9 (memory), hangs, or was started by the MPI launcher (which can
            # fail by itself) is tried once more before a bad end counts.
            mpi = job.np > 1 or job.part.get("mpirun")
            ok = job.rc == 0 and ndone(job.out) >= job.np
            if job.cut or ok or "\nVIOL " in job.out or not (mpi or job.hang or job.rc == -9 or "CASE" not in job.out):
                break
        if job.hang or re.search(r"^VIOL \S+ hang ", job.out, re.M):
            ABORT.set()
    finally:
        slots.put(k)
    return job


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) match=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def last_case(out):
    c = [l for l in out.splitlines() if l.startswith("CASE ")]
    return c[-1].split()[1] if c else "?"


def tail(s, n=12):
    return "\n".join(s.strip().splitlines()[-n:])


def crash_text(job):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|ERROR: LeakSanitizer: [^\n]*)", job.err + job.out)
    return m.group(1) if m else "exit status %s" % job.rc


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        names = set()
        for prop in plan.CHECKS:
            for part in plan.CHECKS[prop]["parts"]("quick", 1):
                names.add(part["bin"])
        r = build(sorted(names))
        for n, v in r.items():
            print(n, v if isinstance(v, str) else "FAILED: %s" % v)
        return 0
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        b = build([r["bin"]])[r["bin"]]
        if not isinstance(b, str):
            print(b)
            return 2
        cmd = [b if c == "@BIN@" else c for c in r["cmd"]]
        d = tempfile.mkdtemp()
        e = dict(ENV)
        e.update(r["env"])
        print("+", " ".join(cmd))
        rc = subprocess.run(cmd, cwd=d, env=e).returncode
        shutil.rmtree(d, ignore_errors=True)
        return 1 if rc else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    chk = plan.CHECKS[prop]
    parts = chk["parts"](tier, seed)
    bins = build(sorted({p["bin"] for p in parts}))
    t_build = time.time() - t0
    skipped = []
    usable = []
    for p in parts:
        b = bins[p["bin"]]
        if isinstance(b, BuildError):
            if p.get("optional"):
                skipped.append("%s: does not build against this tree: %s" % (p["bin"], b))
                continue
            print("check could not be built: %s" % b)
            return 2
        usable.append((p, b))
    if not usable:
        print("check could not be built:", "; ".join(skipped))
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    jobs = []
    for p, b in usable:
        n, sl = p.get("n", 1), p.get("slices", NCPU)
        sl = max(1, min(sl, n))
        edges = [n * i // sl for i in range(sl + 1)]
        for i in range(sl):
            args = [str(a) for a in p["args"]]
            cmd = ["@BIN@"] + [str(edges[i]) if a == "@A" else str(edges[i + 1]) if a == "@B" else a for a in args]
            if p.get("wrap"):
                cmd = list(p["wrap"]) + cmd
            np = p.get("np", 1)
            if np > 1 or p.get("mpirun"):
                cmd = ["mpirun", "-np", str(np)] + cmd
            env = dict(p.get("env", {}))
            jobs.append(Job(p, cmd, env, p.get("timeout", 180 if tier == "quick" else 3000), {"bin": p["bin"]}, np))
            jobs[-1].real = [b if c == "@BIN@" else c for c in cmd]
    slots = Slots(NCPU)
    for j in jobs:
        j.replay_cmd, j.cmd = j.cmd, j.real
    try:
        with ThreadPoolExecutor(len(jobs)) as ex:
            list(ex.map(lambda j: run_job(j, slots, scratch), jobs))
        viols = []   # (key, text, job)
        stats, sets, samples = {}, {}, []
        for j in jobs:
            label = j.part["bin"] + " " + " ".join(str(a) for a in j.part["args"][:1])
            done = ndone(j.out)
            nviol = 0
            for l in j.out.splitlines():
                if l.startswith("VIOL "):
                    w = l.split(" ", 3)
                    if len(w) >= 4 and (w[1] == prop or w[1] in j.part.get("also", ())):
                        viols.append((w[2], w[3], j))
                        nviol += 1
                elif l.startswith("STAT "):
                    w = l.split()
                    stats[w[1]] = stats.get(w[1], 0) + int(w[2])
                elif l.startswith("SET "):
                    w = l.split(" ", 2)
                    sets.setdefault(w[1], set()).add(w[2])
                elif l.startswith("SAMPLE ") and len(samples) < 400:
                    try:
                        samples.append(json.loads(l[7:]))
                    except ValueError:
                        samples.append(l[7:])
            if j.cut:
                skipped.append("%s: stopped because another job hangs" % label)
                continue
            if j.rc and re.search(r"FATAL: \w+Sanitizer|valgrind: (fatal|failed|the 'impossible')|unrecognised instruction", j.err):
                skipped.append("%s: the sanitizer cannot run here: %s" % (label, crash_text(j)))
                continue
            if j.hang:
                viols.append(("hang", "%s did not finish within %d s (twice), in case %s" % (label, j.timeout, last_case(j.out)), j))
            elif j.rc != 0 and not nviol:
                viols.append(("crash", "%s ended abnormally in case %s: %s | %s" % (label, last_case(j.out), crash_text(j), tail(j.err, 3).replace("\n", " / ")[:600]), j))
            elif j.rc == 0 and done < max(1, j.np):
                viols.append(("crash", "%s stopped in case %s without finishing" % (label, last_case(j.out)), j))
        for f in chk.get("post", []):
            viols += f(jobs, stats, sets)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # known findings
    kf = known_findings()
    fresh, seen = [], set()
    for v in viols:
        hit = next((k for k in kf if k[0] == prop and k[1] == v[0] and re.search(k[2], v[1])), None)
        if hit:
            if hit not in seen:
                seen.add(hit)
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[3]))
        else:
            fresh.append(v)
    # evidence
    cov = {
        "evaluations": sum(stats.get(k, 0) for k in chk["evaluations"]),
        "distinct_nontrivial": sum(len(sets.get(k, ())) for k in chk["distinct"]),
        "rule": chk["rule"],
        "samples": samples[:: max(1, len(samples) // 6)][:6] or ["none"],
        "observed": {k: stats[k] for k in sorted(stats)},
        "distinct_sets": {k: {"count": len(v), "examples": sorted(v)[:12]} for k, v in sorted(sets.items())},
        "jobs": len(jobs),
        "build_s": round(t_build, 1),
    }
    if skipped:
        cov["skipped_parts"] = skipped
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    # vacuity: the monitors must have seen what the check is about
    for k in chk.get("require", []):
        if stats.get(k, 0) <= 0 and not skipped and not fresh:
            print("check is vacuous: monitor counter '%s' stayed at zero" % k)
            return 2
    print("%s %s: %d cases, %s; build %.0f s, total %.0f s" % (prop, tier, cov["evaluations"], ", ".join("%s=%d" % (k, stats.get(k, 0)) for k in chk.get("require", [])), t_build, time.time() - t0))
    if not fresh:
        return 0
    rd = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    byk = {}
    for v in fresh:
        byk.setdefault(v[0], []).append(v)
    for i, (k, vs) in enumerate(sorted(byk.items())):
        key, text, j = vs[0]
        cmd = list(j.replay_cmd)
        m = re.search(r"case=(\d+)", text) or re.search(r"in case (\d+)", text)
        a = list(j.part["args"])
        if m and "@A" in a and not j.part.get("noreplaycase"):
            off = len(cmd) - len(a)
            cmd[off + a.index("@A")] = m.group(1)
            cmd[off + a.index("@B")] = str(int(m.group(1)) + 1)
        path = os.path.join(rd, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": key, "text": text, "count": len(vs), "bin": j.part["bin"], "cmd": cmd, "env": j.env,
                       "stderr": tail(j.err, 40), "how": "python3 run.py replay <this file>"}, f, indent=1)
        print("  [%s] x%d %s" % (key, len(vs), text[:700]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
