"""P18, P20, P21: terms, triples and quads, statement macros."""
import glob

from .core import CORES, parallel


def corrupt_cmp(evs):
    for i, e in enumerate(evs):
        if e["c"] != 0:
            e["p"] = 0
            return evs[:i + 1]
    return None


def tuples(ctx):
    def model():
        _, lines = ctx.tlc("MC_Tuple", "Empty.cfg")
        return ctx.emitted(lines, "tuple.vec")
    _, (v, n) = parallel(ctx.build, model)
    ctx.states += n
    ctx.transitions += n
    r = ctx.harness(["replay-tuple", v], what="replay of MC_Tuple")
    ctx.vectors += r["cases"]
    ctx.exhaustive.append("every operation on all triples and quads over 3 components; all comparisons of all pairs over 2 components, and with incomparable components; 4 kinds of component types")
    pre = ctx.path("tuple-")
    ctx.harness(["record-tuple", ctx.seed, 8000 if ctx.quick else 200000, CORES if ctx.quick else 24, pre], what="recorded comparison")
    ctx.validate("TraceTuple", sorted(glob.glob(pre + "*.ndjson")), what="recorded comparison", control=corrupt_cmp)


def corrupt_term(evs):
    for i, e in enumerate(evs):
        if e["e"] == "eq" and len(e["m"]) > 1:
            e["m"][0][1] = 1 - e["m"][0][1]
            return evs[:i + 1]
    return None


def terms(ctx):
    def model():
        _, lines = ctx.tlc("MC_Term", "Empty.cfg")
        return ctx.emitted(lines, "term.vec")
    _, (v, n) = parallel(ctx.build, model)
    ctx.states += n
    ctx.transitions += n
    r = ctx.harness(["replay-term", v], what="replay of MC_Term")
    ctx.vectors += r["cases"]
    ctx.exhaustive.append("every accessor and conversion of all terms over 4 values, 4 IRIs, 3 languages, 3 blank nodes; every comparison in every mix of forms over 24 of them")
    pre = ctx.path("term-")
    ctx.harness(["record-term", ctx.seed, 500 if ctx.quick else 15000, CORES if ctx.quick else 24, pre], what="recorded comparison")
    ctx.validate("TraceTerm", sorted(glob.glob(pre + "*.ndjson")), what="recorded comparison", control=corrupt_term)


def rust_str(s, rng):
    if rng.random() < .15 and '"' not in s and all(32 <= ord(c) and c != "\ufeff" for c in s):
        return 'r#"' + s + '"#'
    return '"' + "".join("\\u{%x}" % ord(c) if not (32 <= ord(c) < 127) or c in '"\\' else c for c in s) + '"'


def rust_value(v, rng):
    k = v[0]
    if k == "i":
        e = f"iri({rust_str(v[1], rng)})"
        return rng.choice([e, f"Term::Iri({e})", f"LocalTerm::Named(Term::Iri({e}))"])
    if k == "b":
        e = f"BlankIdBuf::new({rust_str(v[1], rng)}.to_string()).unwrap()"
        return rng.choice([e, f"LocalTerm::Anonymous({e})"])
    e = f"Literal::new({rust_str(v[1], rng)}, LiteralType::Any(iri({rust_str(v[2], rng)})))"
    return rng.choice([e, f"Term::Literal({e})", f"LocalTerm::Named(Term::Literal({e}))"])


def rust_program(k, p, rng):
    lets, toks, n = [], [], 0
    for t in p["ts"]:
        if t[0] == "var":
            lets.append(f"let x{n} = {rust_value(t[1], rng)};")
            toks.append(f"x{n}")
            n += 1
        elif t[0] == "str":
            toks.append(rust_str(t[1], rng))
        else:
            toks.append(t[0])
    text = ""
    for a, b in zip(toks, toks[1:] + [""]):
        text += a + ("" if a == "^" or b == "^" and rng.random() < .5 else " ")
    m = p["m"]
    ty = {"triple": "Triple", "quad": "Quad", "triples": "[Triple; _]", "quads": "[Quad; _]"}[m]
    if m in ("triples", "quads"):
        c = sum(1 for t in p["ts"] if t[0] == ".")
        ty = ty.replace("_", str(c))
    # an array of another length must still be reported, not refused by the compiler
    if m in ("triples", "quads") and c:
        ty = None
    o, cl = rng.choice(["[]", "()", "{}"])
    body = " ".join(lets) + f" let r{': ' + ty if ty else ''} = rdf_types::grdf_{m}!{o}{text}{cl}; show(&r)"
    return f"fn p{k}() -> String {{ {body} }}\n"


PRELUDE = '''#![recursion_limit = "1024"]
#![allow(unused)]
use rdf_types::{BlankIdBuf, Literal, LiteralType, LocalTerm, Quad, Term, Triple};
fn iri(s: &str) -> iref::IriBuf { iref::IriBuf::new(s.to_string()).unwrap() }
fn j(s: &str) -> String { serde_json::to_string(s).unwrap() }
fn t(t: &LocalTerm) -> String {
	match t {
		LocalTerm::Anonymous(b) => format!("[\\"b\\",{}]", j(b.as_str())),
		LocalTerm::Named(Term::Iri(i)) => format!("[\\"i\\",{}]", j(i.as_str())),
		LocalTerm::Named(Term::Literal(l)) => match &l.type_ {
			LiteralType::Any(d) => format!("[\\"l\\",{},{}]", j(&l.value), j(d.as_str())),
			LiteralType::LangString(g) => format!("[\\"g\\",{},{}]", j(&l.value), j(g.as_str())),
		},
	}
}
trait Show { fn one(&self) -> String; }
impl Show for Triple { fn one(&self) -> String { format!("[{},{},{}]", t(&self.0), t(&self.1), t(&self.2)) } }
impl Show for Quad { fn one(&self) -> String { format!("[{},{},{},{}]", t(&self.0), t(&self.1), t(&self.2), self.3.as_ref().map(t).unwrap_or("[\\"none\\"]".into())) } }
impl<X: Show, const N: usize> Show for [X; N] { fn one(&self) -> String { format!("[{}]", self.iter().map(|x| x.one()).collect::<Vec<_>>().join(",")) } }
fn show<X: Show>(x: &X) -> String { x.one() }
'''


def random_programs(rng, n):
    iris = ["http://e.org/a", "urn:x:y", "http://e.org/é?q#f", "http://e.org/a%20b", "x:", "HTTP://E.org/A", "http://e.org", "http://e.org/%C3%a9/./..", "http://www.w3.org/2001/XMLSchema#string", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"]
    labels = ["a", "0", "a.b", "_", "é", "b-1", ":", "A", "aB.Cd", "É", "gG", "_:x", "007", "a..b"]
    texts = ["", "a", "x . y", "<\"http://e.org/\">", "a\nb", "\"", "\\", "^^", "é😀", "_:a", "?x", "' '", " v", "v ", "\tv\n", "  ", "AbC", "É", "{}", "{x}", "%s", "\0", "http://e.org/a", "\r\n", "x" * 70]

    def text():
        if rng.random() < .5:
            return rng.choice(texts)
        return "".join(rng.choice(" \t\nabcXYZ019.:_<>@^\"'\\{}$#éÉ漢😀\u00a0\ufeff") for _ in range(rng.randrange(9)))

    def label():
        if rng.random() < .6:
            return rng.choice(labels)
        return rng.choice("abXY019_:é") + "".join(rng.choice("abcXYZ019.-_:é·") for _ in range(rng.randrange(6))) + rng.choice("aZ9_-")
    out = []

    def way():
        k = rng.randrange(6)
        if k == 0:
            return [["<"], ["str", rng.choice(iris)], [">"]]
        if k == 1:
            return [["_"], [":"], ["str", label()]]
        if k == 2:
            return [["str", text()]]
        if k == 3:
            return [["str", text()], ["^"], ["^"], ["str", rng.choice(iris)]]
        v = rng.choice([["i", rng.choice(iris)], ["b", "_:" + label()], ["l", text(), rng.choice(iris)]])
        return [["var", v]]
    for _ in range(n):
        m = rng.choice(["triple", "quad", "triples", "quads", "triples", "quads"])
        ts = []
        for _ in range(1 if m in ("triple", "quad") else 1 + rng.randrange(6)):
            for _ in range(3 if m.startswith("triple") or rng.random() < .5 else 4):
                ts += way()
            if m.endswith("s"):
                ts.append(["."])
        out.append({"m": m, "ts": ts})
    return out


def corrupt_macro(evs):
    for i, e in enumerate(evs):
        if e["m"] == "quad":
            e["r"][0], e["r"][2] = e["r"][2], e["r"][0]
            if e["r"][0] != e["r"][2]:
                return evs[:i + 1]
    return None


def macros(ctx):
    import json
    import os
    import random
    import re
    import subprocess
    from .core import HARNESS, ToolError, cargo_env

    def model():
        _, lines = ctx.tlc("MC_Macro", "Empty.cfg")
        return ctx.emitted(lines, "macro.vec")
    _, (v, n) = parallel(ctx.build, model)
    ctx.states += n
    ctx.transitions += n
    rng = random.Random(ctx.seed)
    with open(v) as f:
        progs = [json.loads(l) for l in f]
    progs += random_programs(rng, 200 if ctx.quick else 3000)
    crate = ctx.path("macros")
    os.makedirs(os.path.join(crate, "src"))
    with open(os.path.join(HARNESS, "Cargo.toml")) as f:
        toml = f.read().replace('name = "rdf-harness"', 'name = "rdf-macros"')
    toml = toml.replace("opt-level = 1", "opt-level = 0")
    # the same profile for the dependencies, so that they are not built again
    toml += "\n[profile.dev.package.\"*\"]\nopt-level = 1\n"
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write(toml)
    with open(os.path.join(HARNESS, "Cargo.lock")) as f:
        lock = f.read().replace('name = "rdf-harness"', 'name = "rdf-macros"')
    with open(os.path.join(crate, "Cargo.lock"), "w") as f:
        f.write(lock)
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")

    def compile_(ps, ids):
        lines = [rust_program(k, ps[k], random.Random(ctx.seed * 1000003 + k)) for k in ids]
        main = "fn main() {\n" + "".join(f"\tgo({k}, p{k});\n" for k in ids) + "}\n"
        src = PRELUDE + "fn go(k: usize, f: fn() -> String) { match std::panic::catch_unwind(f) { Ok(s) => println!(\"{k} {s}\"), Err(_) => println!(\"{k} panic\") } }\n" + main
        base = src.count("\n")
        with open(os.path.join(crate, "src", "main.rs"), "w") as f:
            f.write(src + "".join(lines))
        r = subprocess.run(["cargo", "build", "--offline"], cwd=crate, env=env, capture_output=True, text=True)
        bad = {}
        if r.returncode:
            # errors inside generated functions, found by their line
            for m in re.finditer(r"^error[^\n]*\n(?:.*?\n)*? *--> ([^\n]*)", r.stderr, re.M):
                block = r.stderr[m.start():m.start() + 3000].split("\n\n")[0]
                for q in re.finditer(r"src/main\.rs:(\d+):", block):
                    i = int(q.group(1)) - base - 1
                    if 0 <= i < len(ids):
                        bad.setdefault(ids[i], block[:600])
            if not bad:
                raise ToolError("generated programs do not build:\n" + r.stderr[-3000:])
        return bad

    ids = list(range(len(progs)))
    for _ in range(6):
        bad = compile_(progs, ids)
        for k in sorted(bad):
            ctx.violation("a use of the macro within the supported syntax does not compile", {"macro": progs[k]["m"], "tokens": progs[k]["ts"], "compiler": bad[k]})
        if not bad:
            break
        ids = [k for k in ids if k not in bad]
        if not ids or len(ctx.violations) > 40:
            return
    ctx.note(f"{len(ids)} uses of the macros compiled")
    r = subprocess.run([os.path.join(HARNESS, "target", "debug", "rdf-macros")], capture_output=True, text=True, timeout=60)
    if r.returncode:
        raise ToolError("generated programs end with " + str(r.returncode) + r.stderr[-1000:])
    files = 4
    outs = [open(ctx.path(f"macro-{i}.ndjson"), "w") for i in range(files)]
    for line in r.stdout.split("\n"):
        if not line:
            continue
        k, res = line.split(" ", 1)
        k = int(k)
        if res == "panic":
            ctx.violation("a use of the macro panics", {"macro": progs[k]["m"], "tokens": progs[k]["ts"]})
            continue
        ctx.checks += 1
        outs[k % files].write(json.dumps({"e": "use", "m": progs[k]["m"], "ts": progs[k]["ts"], "r": json.loads(res)}) + "\n")
    for o in outs:
        o.close()
    ctx.vectors += n
    ctx.exhaustive.append("every statement over 6 ways of writing a term (triples, quads, with and without graph), one- and two-statement lists; random lists of up to 6 statements")
    ctx.validate("TraceMacro", sorted(glob.glob(ctx.path("macro-*.ndjson"))), what="recorded macro use", control=corrupt_macro)
