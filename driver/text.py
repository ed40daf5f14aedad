"""P16, P17: renderings and serialisation."""
import glob

from .core import CORES, parallel


def corrupt(evs):
    for i, e in enumerate(evs):
        if e["e"] == "term" and len(e["s"]) > 4:
            e["s"][2] = 97 if e["s"][2] != 97 else 98
            return evs[:i + 1]
    return None


def nquads(ctx):
    def model():
        _, lines = ctx.tlc("MC_NQuads", "Empty.cfg")
        return ctx.emitted(lines, "nq.vec")
    _, (v, n) = parallel(ctx.build, model)
    ctx.states += n
    ctx.transitions += n
    pre = ctx.path("nq-")
    r = ctx.harness(["record-nquads", v, ctx.seed, 800 if ctx.quick else 20000, 16 if ctx.quick else 64, pre, 0x10000 if ctx.quick else 0x110000], what="recorded rendering", timeout=800)
    ctx.vectors += n
    ctx.exhaustive.append("all strings of 0, 1, 2 characters over 21 special ones with each kind of type, all statements over 5 terms; every code point below " + ("U+10000" if ctx.quick else "U+110000") + " in a literal and those at both ends of every plane")
    ctx.validate("TraceNQuads", sorted(glob.glob(pre + "*.ndjson")), what="recorded rendering", control=corrupt)


def corrupt_serde(evs):
    for i, e in enumerate(evs):
        if e["e"] == "val" and isinstance(e["b"], dict) and isinstance(e["b"].get("v"), str):
            e["b"]["v"] += "x"
            return evs[:i + 1]
    return None


def serde(ctx):
    def model():
        _, lines = ctx.tlc("MC_Serde", "Empty.cfg")
        return ctx.emitted(lines, "serde.vec")
    _, (v, n) = parallel(ctx.build, model)
    ctx.states += n
    ctx.transitions += n
    pre = ctx.path("serde-")
    ctx.harness(["record-serde", v, ctx.seed, 600 if ctx.quick else 20000, 16 if ctx.quick else 64, pre], what="recorded serialisation", timeout=800)
    ctx.vectors += n
    ctx.exhaustive.append("all statements over 4 terms, all terms over 11 values with 5 types, all texts of up to 4 characters over 8; random terms, statements, containers and texts beyond")
    ctx.validate("TraceSerde", sorted(glob.glob(pre + "*.ndjson")), what="recorded serialisation", control=corrupt_serde)
