"""Machinery shared by all checks: building the harness from /repo, running TLC,
running the harness, validating traces, reporting."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
CORES = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    """The check itself could not be carried out; no statement about the code."""


def cargo_env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    return env


def whole_lines(f):
    """Drops an unfinished last line, left where the code under test hung or crashed."""
    with open(f, "rb+") as h:
        h.seek(0, 2)
        n = h.tell()
        if n == 0:
            return
        h.seek(n - 1)
        if h.read(1) == b"\n":
            return
        h.seek(0)
        h.truncate(h.read().rfind(b"\n") + 1)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.vectors = self.traces = self.events = 0
        self.checks = 0
        self.counts = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.exhaustive = []
        self.lock = threading.Lock()
        self.known = load_known(pid)

    # ---- files
    def path(self, name):
        return os.path.join(self.work, name)

    def write_json(self, name, obj):
        p = self.path(name)
        with open(p, "w") as f:
            json.dump(obj, f)
        return p

    # ---- reporting
    def violation(self, what, detail):
        with self.lock:
            n = len(self.violations)
            key = json.dumps(detail, sort_keys=True, default=str)
            for k in self.known:
                if all(s in key or s in what for s in k["match"]):
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
                    return
            path = os.path.join(self.replays, f"{self.pid}-{self.tier}-{self.seed}-{n}.json")
            if n < 8:
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "what": what, "detail": detail}, f, indent=1, default=str)
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)
                print(f"  {what}: {key[:600]}", flush=True)
            self.violations.append(what)

    def note(self, s):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s] {s}", flush=True)

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    # ---- building
    def build(self):
        t = time.time()
        r = subprocess.run(["cargo", "build", "--offline", "--bin", "rdf-harness"], cwd=HARNESS, env=cargo_env(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stderr[-3000:])
        self.bin = os.path.join(HARNESS, "target", "debug", "rdf-harness")
        self.note(f"harness built in {time.time() - t:.1f}s")

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=800, xmx="4g", simulate=None, count=True, expect_ok=True):
        """Runs TLC; returns (ok, output lines)."""
        meta = os.path.join(self.work, f"meta-{module}-{threading.get_ident()}-{time.time_ns()}")
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = f"-Xmx{xmx} -Xss32m"
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-config", cfg or f"{module}.cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(f"{module}.tla")
        outp = os.path.join(self.work, f"tlc-{module}-{time.time_ns()}.out")
        try:
            with open(outp, "w") as f:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} exceeded {timeout}s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        with open(outp, errors="replace") as f:
            lines = f.read().split("\n")
        if not os.environ.get("KEEP"):
            os.unlink(outp)
        ok = r.returncode == 0
        text_tail = "\n".join(l for l in lines if not l.startswith('"@@'))[-4000:]
        if any("OutOfMemoryError" in l for l in lines[-200:]):
            raise ToolError(f"TLC on {module} ran out of memory")
        if expect_ok and not ok:
            raise ToolError(f"TLC on {module} ({cfg}) failed:\n{text_tail}")
        if count:
            for l in reversed(lines):
                m = re.match(r"(\d+) states generated, (\d+) distinct", l)
                if m:
                    with self.lock:
                        self.transitions += int(m.group(1))
                        self.states += int(m.group(2))
                    break
        return ok, lines

    def emitted(self, lines, out_name):
        """Extracts the JSON lines printed by PrintT("@@" \\o ToJson(..)) into a file."""
        p = self.path(out_name)
        n = 0
        with open(p, "w") as f:
            for l in lines:
                if l.startswith('"@@'):
                    f.write(l[3:-1].replace('\\"', '"').replace("\\\\", "\\"))
                    f.write("\n")
                    n += 1
        if n == 0:
            raise ToolError(f"TLC printed no vectors for {out_name}")
        return p, n

    # ---- harness
    def harness(self, args, timeout=600, what="replay", mark=False):
        env = dict(os.environ)
        env["RUST_BACKTRACE"] = "0"
        if mark:
            env["HARNESS_MARK"] = self.path("mark")
        cmd = ["prlimit", "--as=12000000000", self.bin] + [str(a) for a in args]
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness {args[:2]} exceeded {timeout}s")
        if r.returncode == 3:
            raise ToolError("harness: " + r.stderr[-2000:])
        if r.returncode == 0:
            res = json.loads(r.stdout.strip().split("\n")[-1])
            with self.lock:
                self.checks += res["checks"]
                for k, v in res["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + v
            for s in res["samples"]:
                self.sample(s)
            for b in res["bad"]:
                self.violation(f"{what}: the code disagrees with the specification", b)
            if res["bad_count"] > len(res["bad"]):
                self.note(f"{res['bad_count']} disagreements in all")
            return res
        # abnormal ending: a crash, an abort or a hang of the code under test
        if r.returncode == -9:
            raise ToolError(f"harness {args[:2]} was killed")
        if not mark and r.returncode != 7:
            before = len(self.violations)
            r2 = self.harness(args, timeout, what, mark=True)
            if len(self.violations) == before:
                self.violation(f"{what}: abnormal exit {r.returncode} of the code under test, not reproduced on one thread", {"stderr": r.stderr[-1500:], "args": [str(a) for a in args]})
            return r2
        case = ""
        try:
            case = open(self.path("mark")).read()
        except OSError:
            pass
        kind = "hang" if r.returncode == 7 else f"abnormal exit {r.returncode}"
        self.violation(f"{what}: {kind} of the code under test", {"case": case, "stdout": r.stdout[-500:], "stderr": r.stderr[-1500:], "args": [str(a) for a in args]})
        return {"cases": 0, "checks": 0, "counts": {}, "samples": [], "bad": [], "bad_count": 1}

    # ---- trace validation
    def validate(self, module, files, cfg=None, env=None, what="recorded history", control=None, timeout=700):
        """Every file must be accepted by the trace specification. `control` corrupts a
        trace (list of events -> list of events); the corrupted one must be rejected."""
        for f in files:
            whole_lines(f)
        files = [f for f in files if os.path.getsize(f) > 0]

        def run(f, e=None):
            e = dict(env or {})
            e["TRACE"] = f
            return self.tlc(module, cfg or f"{module}.cfg", e, 1, timeout, xmx="3g", expect_ok=False)

        def verdict(f, ok, lines):
            text = "\n".join(lines)
            if ok:
                return None
            m = re.search(r'<<"REJECTED-AT", (\d+)>>', text)
            obs = [l for l in lines if "REJECTED-OBS" in l][:5]
            if m:
                at = int(m.group(1))
            elif "TLC threw an unexpected exception" in text or "evaluating" in text:
                m2 = re.findall(r"^(?:/\\ )?l = (\d+)$", text, re.M)
                at = int(m2[-1]) if m2 else 1
                k = next((i for i, l in enumerate(lines) if l.startswith("Error:")), 0)
                obs = [l for l in lines[k:k + 14] if l.strip()]
            else:
                raise ToolError(f"TLC on {module} failed:\n" + text[-3000:])
            return at, obs

        jobs = [(f, None) for f in files]
        if control and files:
            bad = self.path("control.ndjson")
            with open(files[0]) as f:
                evs = [json.loads(l) for l in f]
            evs = control(evs)
            if evs is not None:
                with open(bad, "w") as f:
                    for e in evs:
                        f.write(json.dumps(e) + "\n")
                jobs.append((bad, "control"))
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda j: (j, run(j[0])), jobs))
        for (f, kind), (ok, lines) in res:
            v = verdict(f, ok, lines)
            if kind == "control":
                if v is None:
                    raise ToolError(f"{module} accepted a corrupted trace: the check would see nothing")
                self.count("corrupted traces rejected")
                continue
            with open(f) as fh:
                evs = [json.loads(l) for l in fh]
            n = sum(1 for e in evs if e.get("e") == "reset") or len(evs)
            if v is None:
                with self.lock:
                    self.traces += n
                    self.events += len(evs)
            else:
                at, obs = v
                start = at - 1
                while start > 0 and evs[min(start, len(evs) - 1)].get("e") != "reset":
                    start -= 1
                ev = evs[at - 1] if at - 1 < len(evs) else None
                hist = [e for e in evs[start:at] if e.get("e") != "obs"]
                self.violation(f"{what}: rejected by {module}", {"event": ev, "rejected": obs, "history": hist[-400:]})

    # ---- evidence
    def finish(self, level="model_checking"):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.vectors + self.traces,
            "vectors_replayed": self.vectors, "recorded_traces_accepted": self.traces,
            "recorded_events": self.events, "comparisons": self.checks,
            "counts": self.counts, "samples": self.samples or ["none"],
            "notes": self.notes, "exhaustive_within": self.exhaustive,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": ["the bounds stated in coverage", "TLC 1.8.0 and the Rust toolchain are correct"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    """Findings recorded and not repaired; each names the strings its report must contain."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("{"):
                    k = json.loads(l)
                    if k["property"] == pid:
                        out.append(k)
    except OSError:
        pass
    return out


def parallel(*fs):
    """Runs the functions concurrently and returns their results; the first error is raised."""
    with concurrent.futures.ThreadPoolExecutor(len(fs)) as ex:
        hs = [ex.submit(f) for f in fs]
        return [h.result() for h in hs]
