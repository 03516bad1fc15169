"""Driver support: builds harness binaries, runs case ranges in parallel, survives crashes of the
code under test (a crash, sanitizer report or hang is the verdict for the case that was running),
matches violations against the known-findings file and writes the evidence file."""
import os, sys, re, json, time, struct, subprocess, tempfile, shutil, signal, threading
from concurrent.futures import ThreadPoolExecutor
import build as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NCPU = min(8, os.cpu_count() or 8)

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:symbolize=1:max_allocation_size_mb=2048:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99",
}

class Job:
    """variant, harness, mode, number of cases"""
    def __init__(self, variant, harness, mode, quick, thorough, env=None, cpu=8, chunks=None, base=0, group=None, slow_ok=False):
        self.slow_ok = slow_ok
        self.variant, self.harness, self.mode = variant, harness, mode
        self.quick, self.thorough, self.env, self.cpu, self.chunks, self.base, self.group = quick, thorough, env or {}, cpu, chunks, base, group

class Violation:
    def __init__(self, key, case, path, what, variant, mode):
        self.key, self.case, self.path, self.what, self.variant, self.mode = key, case, path, what, variant, mode

def crash_key(rc, err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)(?: [^\n]*? in ([\w:~<>]+))?", err)
    if m:
        kind, func = m.group(2), m.group(3) or ""
        if kind == "undefined-behavior":
            r = re.search(r"runtime error: ([^\n]*)", err)
            kind = "ub:" + re.sub(r"[-0-9x]+[0-9a-f]*", "#", (r.group(1) if r else "?"))[:60].strip().replace(" ", "_")
            f = re.search(r"#0 \S+ in ([\w:~]+)", err)
            func = f.group(1) if f else ""
        f = [x for x in re.findall(r"#\d+ \S+ in ([\w:~]+)[^\n]*discrete_src", err)]
        if f: func = f[0]
        return "crash:%s:%s" % (kind, func)
    r = re.search(r"([\w./]+):(\d+):(\d+): runtime error: ([^\n]*)", err)
    if r:
        return "crash:ub:" + re.sub(r"[-0-9x]+[0-9a-f]*", "#", r.group(4))[:60].strip().replace(" ", "_") + ":" + os.path.basename(r.group(1))
    m = re.search(r"Assertion `(.*?)' failed", err)
    if m: return "crash:assert:" + m.group(1)[:60].replace(" ", "_")
    if rc < 0:
        try: return "crash:" + signal.Signals(-rc).name
        except ValueError: return "crash:signal%d" % -rc
    return "crash:exit%d" % rc

class Runner:
    def __init__(self, prop, tier, seed, replay_dir):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay_dir
        self.stats, self.samples, self.viol, self.notes = {}, [], [], []
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.hashes = set(); self.incon = 0; self.ndone = 0; self.nplan = 0
        self.errors = []; self.digests = {}; self.known = [rx for rx, _ in load_known(prop)]
    def enough(self):
        """the verdict is decided: no need to run the rest"""
        with self.lock: return sum(1 for v in self.viol if not any(rx.match(v.key) for rx in self.known)) >= int(os.environ.get("VP_MAXVIOL", "6"))
    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def range_(self, job, binp, a, b, idx):
        env = dict(os.environ); env.update(SAN_ENV); env.update(job.env)
        cur = a; crashes = 0
        while cur < b:
            if self.enough(): break
            prog = os.path.join(self.tmp, "p%s" % idx); hf = os.path.join(self.tmp, "h%s" % idx)
            work = os.path.join(self.tmp, "w%s" % idx); os.makedirs(work, exist_ok=True)
            if os.path.exists(prog): os.remove(prog)
            rc, out, err, c, done = self.one(job, binp, cur, b, prog, hf, work, env, job.cpu)
            self.parse(out, job)
            if rc == 0 and "E\tdone" in out:
                with self.lock: self.ndone += b - cur
                break
            if rc == 2 or c is None:
                with self.lock: self.errors.append("harness error rc=%d %s %s: %s" % (rc, job.variant, job.mode, (err or out)[-400:]))
                return
            with self.lock: self.ndone += max(0, c - cur + 1)
            if rc == 79 or (rc == 78 and job.slow_ok):   # the property does not bound what a program may ask for
                with self.lock: self.stats["skipped_resource"] = self.stats.get("skipped_resource", 0) + 1
            else:
                # run that case on its own: confirms a crash, and gives a hang four times the time
                cpu = job.cpu * (4 if rc == 77 and not job.slow_ok else 1)
                rc2, out2, err2, c2, d2 = self.one(job, binp, c, c + 1, prog, hf + "x", work, env, cpu)
                if rc2 == 0:
                    if rc in (77, 78):
                        with self.lock:
                            self.incon += 1
                            if len(self.notes) < 40: self.notes.append("slow: %s/%s case %d" % (job.variant, job.mode, c))
                        self.parse(out2, job)
                    else:   # only in sequence: still real, replay is the range
                        self.crash(job, binp, cur, c, rc, err, "in sequence from case %d" % cur)
                        crashes += 1
                elif rc2 == 77 and job.slow_ok:   # the property does not promise an end
                    with self.lock:
                        self.incon += 1
                        if len(self.notes) < 40: self.notes.append("slow: %s/%s case %d" % (job.variant, job.mode, c))
                elif rc2 == 79 or (rc2 == 78 and job.slow_ok):
                    with self.lock: self.stats["skipped_resource"] = self.stats.get("skipped_resource", 0) + 1
                else:
                    self.parse(out2, job)
                    self.crash(job, binp, c, c, rc2, err2, "")
                    crashes += 1
            cur = c + 1
            if crashes >= int(os.environ.get("VP_MAXCRASH", "4")):
                with self.lock: self.notes.append("%s/%s: stopped after %d crashes" % (job.variant, job.mode, crashes))
                break

    def one(self, job, binp, a, b, prog, hf, work, env, cpu):
        cmd = [binp, "--variant", job.variant, "--mode", job.mode, "--prop", self.prop, "--seed", str(self.seed), "--from", str(a), "--to", str(b),
               "--progress", prog, "--hashes", hf, "--replay-dir", self.replay, "--cpu", str(cpu)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=work, start_new_session=True)
        # a case that blocks without using CPU time is ended by this wall-clock guard
        state = {"last": -1, "t": time.time(), "killed": False}
        def watch():
            while p.poll() is None:
                time.sleep(1)
                try: c = struct.unpack("q", open(prog, "rb").read(8))[0]
                except Exception: c = -1
                if c != state["last"]: state["last"], state["t"] = c, time.time()
                elif time.time() - state["t"] > cpu * 6 + 60:
                    state["killed"] = True
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
                    return
        t = threading.Thread(target=watch, daemon=True); t.start()
        out, err = p.communicate()
        try: c, d = struct.unpack("qq", open(prog, "rb").read(16))
        except Exception: c, d = None, None
        rc = 77 if state["killed"] else p.returncode
        return rc, out.decode("latin1"), err.decode("latin1"), c, d

    def crash(self, job, binp, a, c, rc, err, note):
        key = "hang" if rc == 77 else "memory" if rc == 78 else crash_key(rc, err)
        path = os.path.join(self.replay, "%s-%s-%s-s%d-c%d-crash.txt" % (self.prop, job.variant, job.mode, self.seed, c))
        with open(path, "w") as f:
            f.write("key: %s %s\nrerun: python3 /verif/bin/replay.py %s %s %s %s %d %d %d\n\n%s\n" %
                    (key, note, job.variant, job.harness, job.mode, self.prop, self.seed, a, c + 1, err[:12000]))
        with self.lock:
            self.viol.append(Violation(key, c, path, "%s (%s)" % (key, "case never finished" if rc == 77 else "a case of bounded size asked for more memory than the limit" if rc == 78 else "process ended with %d" % rc), job.variant, job.mode))

    def parse(self, out, job):
        with self.lock:
            for ln in out.split("\n"):
                f = ln.split("\t")
                if f[0] == "S" and len(f) >= 3:
                    self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
                elif f[0] == "D" and len(f) >= 3:
                    self.digests.setdefault((job.group, int(f[1])), {})[job.variant] = (f[2], job)
                elif f[0] == "X" and len(f) >= 2:
                    if len(self.samples) < 6: self.samples.append(f[1])
                elif f[0] == "V" and len(f) >= 5:
                    with open(f[3], "a") if f[3] != "-" and os.path.exists(f[3]) else open(os.devnull, "w") as fh:
                        fh.write("rerun: python3 /verif/bin/replay.py %s %s %s %s %d %s %d\n" % (job.variant, job.harness, job.mode, self.prop, self.seed, f[2], int(f[2]) + 1))
                    self.viol.append(Violation(f[1], int(f[2]), f[3], f[4], job.variant, job.mode))

    def run(self, jobs):
        bins = {}
        need = sorted({(j.variant, j.harness) for j in jobs})
        with ThreadPoolExecutor(4) as ex:
            futs = {n: ex.submit(B.build, n[0], n[1], 4) for n in need}
            for n, f in futs.items():
                try: bins[n] = f.result()
                except SystemExit:
                    print("cannot build %s for %s" % (n[1], n[0])); raise
        work = []
        for j in jobs:
            n = j.thorough if self.tier == "thorough" else j.quick
            if n <= 0: continue
            self.nplan += n
            k = min(n, j.chunks or NCPU * 2)
            for i in range(k):
                a, b = j.base + n * i // k, j.base + n * (i + 1) // k
                if b > a: work.append((j, a, b))
        with ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(self.range_, j, bins[(j.variant, j.harness)], a, b, i) for i, (j, a, b) in enumerate(work)]
            for f in fs: f.result()
        # cases run by several builds must have produced the same observation
        ndig = 0
        for (g, c), d in sorted(self.digests.items(), key=lambda x: x[0][1]):
            if len(d) < 2: continue
            ndig += 1
            if len({x[0] for x in d.values()}) > 1 and len(self.viol) < 200:
                vs = sorted(d); a = vs[0]; b = next(v for v in vs if d[v][0] != d[a][0]); j = d[a][1]
                path = os.path.join(self.replay, "%s-diff-%s-s%d-c%d.txt" % (self.prop, g, self.seed, c))
                with open(path, "w") as f:
                    for v in (a, b): f.write("rerun: python3 /verif/bin/replay.py %s %s %s %s %d %d %d   # digest %s\n" % (v, j.harness, j.mode, self.prop, self.seed, c, c + 1, d[v][0]))
                self.viol.append(Violation("%s.build-difference" % g, c, path, "builds %s and %s observe different behaviour" % (a, b), a + "/" + b, j.mode))
        if ndig: self.stats["cross_build_comparisons"] = ndig
        for n in os.listdir(self.tmp):
            if n.startswith("h"):
                d = open(os.path.join(self.tmp, n), "rb").read()
                self.hashes.update(d[i:i + 8] for i in range(0, len(d) - 7, 8))

def load_known(prop):
    """Lines: known: property=P06 key=<regex> <what>.  'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", ln)
            if m and m.group(1) == prop: out.append((re.compile(m.group(2) + r"\Z"), m.group(3).strip()))
    return out
