"""P14, P15, P19: blank node identifiers, generators, interpretations."""
import glob

from .core import CORES, parallel


def corrupt_id(evs):
    for i, e in enumerate(evs):
        if e["e"] == "scan" and len(e["r"]) > 2:
            e["r"][1][1] += 1
            return evs[:i + 1]
        if e["e"] == "text":
            e["ok"] = 1 - e["ok"]
            return evs[:i + 1]
    return None


def blankid(ctx):
    def model():
        _, lines = ctx.tlc("MC_BlankId", env={"MAXLEN": 7 if ctx.quick else 8}, workers=2, timeout=700)
        return ctx.emitted(lines, "id.vec")
    _, (v, n) = parallel(ctx.build, model)
    r = ctx.harness(["replay-blankid", v], what="replay of MC_BlankId")
    ctx.vectors += r["cases"]
    ctx.exhaustive.append("all texts of up to 5 code points over 9 character classes and all longer ones while not refused; all Unicode scalar values in 9 contexts")
    pre = ctx.path("id-")
    ctx.harness(["record-blankid", ctx.seed, 4000 if ctx.quick else 60000, 9 if ctx.quick else 27, pre], what="recorded identifiers")
    ctx.validate("TraceBlankId", sorted(glob.glob(pre + "*.ndjson")), what="recorded identifiers", control=corrupt_id)


def corrupt_gen(evs):
    for i, e in enumerate(evs):
        if e["e"] == "next" and len(e["r"]) > 1:
            e["r"][1] = e["r"][0]
            return evs[:i + 1]
    return None


def blankgen(ctx):
    def model():
        ctx.tlc("MC_BlankGen")
    parallel(ctx.build, model)
    ctx.exhaustive.append("model: all runs to exhaustion with limit 102; code: runs of up to 150 calls from offsets around every power of 256 and of 10 and the machine limit")
    pre = ctx.path("gen-")
    ctx.harness(["record-blankgen", ctx.seed, 1600 if ctx.quick else 30000, CORES if ctx.quick else 24, pre], what="recorded generator")
    ctx.validate("TraceBlankGen", sorted(glob.glob(pre + "*.ndjson")), what="recorded generator", control=corrupt_gen)
    r = ctx.harness(["many-blankgen", ctx.seed, 150000 if ctx.quick else 3000000], what="long generator run")
    ctx.vectors += r["cases"]


def corrupt_interp(evs):
    for i, e in enumerate(evs):
        if e["e"] == "look" and e["r"] != 0:
            e["r"] = 0
            return evs[:i + 1]
    return None


def interp(ctx):
    def model():
        _, lines = ctx.tlc("MC_Interp", env={"DEPTH": 4 if ctx.quick else 5}, workers=4)
        return ctx.emitted(lines, "interp.vec")
    _, (v, n) = parallel(ctx.build, model)
    r = ctx.harness(["replay-interp", v], what="replay of MC_Interp")
    ctx.vectors += r["cases"]
    ctx.exhaustive.append(f"all histories of {4 if ctx.quick else 5} insertions, aliasings and new resources over 6 terms, on 5 wrappers")
    pre = ctx.path("int-")
    ctx.harness(["record-interp", ctx.seed, 900 if ctx.quick else 20000, CORES if ctx.quick else 24, pre], what="recorded interpretation")
    ctx.validate("TraceInterp", sorted(glob.glob(pre + "*.ndjson")), what="recorded interpretation", control=corrupt_interp)
