#!/usr/bin/env python3
"""Development aid (no check uses it): mutation lab.
lab.py init N            make N workers under /tmp/lab (copies of /repo and /verif)
lab.py list FILE...      print the mutants of these source files
lab.py run OUT N SEED COUNT FILE...   sample COUNT mutants, test on N workers, append JSON lines to OUT
lab.py patch W DIFF PID...  apply a diff to worker W's repo, run checks, undo
Mutants that do not compile or fail the repository's tests are dropped; the others are run
against the checks of the file's properties until one reports a violation."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAB = "/tmp/lab"
MAP = [
    (r"dataset/isomorphism", ["P12", "P13"]),
    (r"dataset/impl/indexed|dataset/impl/btree", ["P01", "P03", "P04", "P06", "P07", "P05", "P08", "P02"]),
    (r"graph/impl", ["P01", "P03", "P04", "P08", "P02"]),
    (r"dataset/", ["P08", "P04", "P01", "P02", "P03"]),
    (r"pattern/triple/map", ["P11"]),
    (r"pattern/", ["P09", "P10", "P11", "P04", "P05"]),
    (r"blankid", ["P14", "P18", "P15", "P16", "P17"]),
    (r"term/generator", ["P15", "P19"]),
    (r"interpretation", ["P19", "P15"]),
    (r"display", ["P16"]),
    (r"macro", ["P21"]),
    (r"triple\.rs|quad\.rs", ["P20", "P16", "P17", "P01"]),
    (r"literal|term|id/", ["P18", "P16", "P17", "P19"]),
    (r".", ["P18", "P19", "P16"]),
]
def props(f):
    return next(p for r, p in MAP if re.search(r, f))
def sh(c, timeout=900, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "timeout")
ENV = ". /opt/vp/env.sh; "
CACHE = '''

# --- lab only: TLC output of model modules is cached (it does not depend on the code)
import hashlib as _h, pickle as _p
_tlc = Ctx.tlc
def _cached(self, module, cfg=None, env=None, *a, **k):
    if module.startswith("Trace"):
        return _tlc(self, module, cfg, env, *a, **k)
    h = _h.sha1(repr((module, cfg, a, sorted(k.items()))).encode())
    for x in sorted((env or {}).items()):
        v = str(x[1])
        h.update(x[0].encode())
        h.update(open(v, "rb").read() if os.path.isfile(v) else v.encode())
    for f in sorted(os.listdir(SPEC)):
        if f.endswith((".tla", ".cfg")):
            h.update(open(os.path.join(SPEC, f), "rb").read())
    p = os.path.join("/tmp/lab/cache", h.hexdigest())
    if os.path.exists(p):
        return _p.load(open(p, "rb"))
    r = _tlc(self, module, cfg, env, *a, **k)
    _p.dump(r, open(p + f".{os.getpid()}", "wb")); os.replace(p + f".{os.getpid()}", p)
    return r
Ctx.tlc = _cached
'''
def init(n, first=0):
    os.makedirs(LAB + "/cache", exist_ok=True)
    for i in range(first, n):
        w = f"{LAB}/w{i}"
        os.makedirs(w, exist_ok=True)
        if not os.path.exists(w + "/repo"):
            sh(f"git clone -q /repo {w}/repo")
        sh(f"cd {w}/repo && git fetch -q origin && git checkout -q . && git reset -q --hard origin/HEAD; cp -n /repo/Cargo.lock . 2>/dev/null")
        sh(f"mkdir -p {w}/verif && rsync -a --delete --exclude .git --exclude target --exclude seeded --exclude .work --exclude evidence --exclude replays {V}/ {w}/verif/") if shutil.which("rsync") else \
            sh(f"mkdir -p {w}/verif && cd {V} && tar cf - --exclude=target --exclude=.git --exclude=seeded --exclude=.work --exclude=evidence --exclude=replays . | tar xf - -C {w}/verif")
        for f in ("harness/Cargo.toml", "driver/core.py", "driver/values.py"):
            p = f"{w}/verif/{f}"
            s = open(p).read().replace('"/repo"', f'"{w}/repo"')
            if f.endswith("core.py"):
                s += CACHE
            open(p, "w").write(s)
        print(i, sh(ENV + f"cd {w}/repo && cargo test $ARGS --no-run", timeout=1800).returncode,
              sh(ENV + f"cd {w}/verif/harness && cargo build --offline", timeout=1800).returncode)

SW = [("subject", "predicate"), ("predicate", "object"), ("object", "subject")]
def mutants(f, text):
    """(line number, new line) pairs."""
    out = []
    lines = text.split("\n")
    stop = next((i for i, l in enumerate(lines) if l.strip() == "#[cfg(test)]" and "mod " in "".join(lines[i + 1:i + 2])), len(lines))
    for i, l in enumerate(lines[:stop]):
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "pub use", "impl", "where", "pub trait", "type ", "pub type", "pub mod", "mod ")):
            continue
        code = l.split("//")[0] if '"' not in l else l
        def sub(pat, rep):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((i, new))
        issig = re.match(r"(pub )?(const |unsafe )*fn ", s)
        if issig and not s.endswith("}"):
            continue
        sub(r" == ", " != "); sub(r" != ", " == ")
        sub(r" < ", " <= "); sub(r" > ", " >= "); sub(r" <= ", " < "); sub(r" >= ", " > ")
        sub(r" && ", " || "); sub(r" \|\| ", " && ")
        sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
        sub(r"is_some\(\)", "is_none()"); sub(r"is_none\(\)", "is_some()")
        sub(r"if !", "if "); sub(r"\bif (?!let|!)", "if !")
        sub(r"\+= 1", "+= 2"); sub(r"-= 1", "-= 0"); sub(r" \+ 1\b", ""); sub(r" - 1\b", "")
        sub(r"\bbreak\b", "continue"); sub(r"\bcontinue\b", "break")
        sub(r"Ordering::Less", "Ordering::Greater"); sub(r"Ordering::Greater", "Ordering::Less")
        sub(r"Ordering::Equal", "Ordering::Less")
        sub(r"\bcapacity\(\)", "len()")
        for k in ("0", "1", "2", "3"):
            for o in ("0", "1", "2", "3"):
                if k != o:
                    sub(r"(?<=[\w)])\." + k + r"\b", "." + o)
        for a in "spog":
            for b in "spog":
                if a != b and re.search(rf"\b{a}_i\b|\b{a}\b", s) and not re.match(r"(let|Some|\()", s):
                    sub(rf"\b{a}_i\b", f"{b}_i")
        for a in ("subject", "predicate", "object"):
            for b in ("subject", "predicate", "object"):
                if a != b:
                    sub(rf"(?<![A-Za-z]){a}(?![A-Za-z])", b)
                    A, B = a.capitalize(), b.capitalize()
                    sub(rf"SameAs{A}\b", f"SameAs{B}")
                    sub(rf"as_{a}s?\b", f"as_{b}")
        sub(r"'([a-zA-Z0-9])'\.\.='([a-zA-Z0-9])'", r"'\1'..'\2'")
        sub(r"\.\.=", "..")
        sub(r"\bGraph\b\(", "Any(") if False else None
        if s.endswith(";") and not s.startswith(("let ", "return", "use ", "pub ", "}", "const", "static", "type")) and l.count("(") == l.count(")"):
            out.append((i, ""))
        m = re.match(r"^(\s*)return (.+);$", l)
        if m and m.group(2) == "true": pass
        sub(r"\bSome\(([a-z_]+)\)(?=[,;]?$)", "None")
        sub(r"\.chain\([^()]*\)", "")
        sub(r"\.min\(", ".max("); sub(r"\.max\(", ".min(")
        sub(r"\.any\(", ".all("); sub(r"\.all\(", ".any(")
        sub(r"\.next\(\)", ".last()")
        sub(r"\bself\.(\w+)\(", r"self.\1(") 
        sub(r"\bunion\b", "intersection")
        sub(r"Self::(Iri|Blank|Literal|Id|Named|Anonymous|Any|String|LangString)\(", lambda_swap) if False else None
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x); res.append(x)
    return res
def apply(path, i, new):
    lines = open(path).read().split("\n")
    lines[i] = new
    open(path, "w").write("\n".join(lines))
def passed_set(log):
    return {m.group(1) for m in re.finditer(r"^test (.+?) \.\.\. ok", log, re.M)}
def check(w, ps):
    for p in ps:
        r = sh(f"cd {w}/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 600 python3 check.py {p}")
        if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
            return p, "", r.stdout
        if r.returncode != 0:
            return p, f"ERROR {r.returncode}: " + r.stdout[-800:], r.stdout
    return None, "", ""
def worker(k, q, base, out, lock):
    w = f"{LAB}/w{k}"
    while True:
        try:
            f, i, new = q.get_nowait()
        except queue.Empty:
            return
        path = f"{w}/repo/{f}"
        sh(f"git -C {w}/repo checkout -- .")
        old = open(path).read().split("\n")[i]
        apply(path, i, new)
        rec = {"f": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        b = sh(ENV + f"cd {w}/repo && cargo test $ARGS --no-run")
        if b.returncode:
            rec["r"] = "nobuild"
        else:
            t = sh(ENV + f"cd {w}/repo && timeout 120 cargo test $ARGS --no-fail-fast -- --test-threads 8")
            if base - passed_set(t.stdout):
                rec["r"] = "tests"
            else:
                p, err, _ = check(w, props(f))
                rec["r"] = "error" if err else ("caught" if p else "SURVIVED")
                rec["by"] = p
                if err: rec["err"] = err
        sh(f"git -C {w}/repo checkout -- .")
        with lock:
            with open(out, "a") as fo:
                fo.write(json.dumps(rec) + "\n")
def run(out, n, seed, count, files):
    b = sh(ENV + f"cd {LAB}/w0/repo && cargo test $ARGS --no-fail-fast -- --test-threads 8")
    base = passed_set(b.stdout)
    print("base tests", len(base))
    ms = []
    for f in files:
        f = os.path.relpath(f, "/repo") if f.startswith("/repo") else f
        ms += [(f, i, nw) for i, nw in mutants(f, open("/repo/" + f).read())]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["f"], d["line"], d["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done]
    random.Random(seed).shuffle(ms)
    print("mutants", len(ms), "sampled", min(count, len(ms)))
    q = queue.Queue()
    for m in ms[:count]:
        q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, base, out, lock)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "init": init(int(a[2]), int(a[3]) if len(a) > 3 else 0)
    elif a[1] == "list":
        for f in a[2:]:
            for i, n in mutants(f, open("/repo/" + f).read()): print(f, i + 1, n.strip())
    elif a[1] == "run": run(a[2], int(a[3]), int(a[4]), int(a[5]), a[6:])
    elif a[1] == "patch":
        w = f"{LAB}/w{a[2]}"
        try:
            print(sh(f"git -C {w}/repo apply {a[3]}").stdout)
            for p in a[4:]:
                print(p, check(w, [p])[2][-2500:])
        finally:
            sh(f"git -C {w}/repo checkout -- .")
