"""P09, P10, P11: canonical patterns and pattern maps."""
import glob

from .core import CORES, parallel


def canonical(ctx):
    def model():
        _, lines = ctx.tlc("MC_Pattern", "Empty.cfg")
        return ctx.emitted(lines, "pattern.vec")
    _, (v, n) = parallel(ctx.build, model)
    # MC_Pattern is a set of theorems: its domains are what TLC enumerated.
    ctx.states += n
    ctx.transitions += n
    r = ctx.harness(["replay-pattern", v], what="replay of MC_Pattern")
    ctx.vectors += r["cases"]
    ctx.exhaustive.append("all patterns over 2 resources and 4 variables, all canonical patterns over 3 resources")
    ctx.notes.append("MC_Pattern theorems: MatchRaw = MatchC o Canon on 1512 raw patterns x 108 quads; canonical forms are unique")


def setting(ctx):
    def model():
        _, lines = ctx.tlc("MC_SetPattern", workers=1)
        return ctx.emitted(lines, "set.vec")
    _, (v, n) = parallel(ctx.build, model)
    r = ctx.harness(["replay-setpattern", v], what="replay of MC_SetPattern")
    ctx.vectors += r["cases"]
    ctx.exhaustive.append("all sequences of up to 3 set calls from every canonical triple pattern over 2 resources")


def corrupt(evs):
    for i, e in enumerate(evs):
        if e["e"] == "get":
            for g in e["g"]:
                if g["y"]:
                    g["y"] = g["y"][1:]
                    return evs[:i + 1]
    return None


def maps(ctx):
    def model():
        _, lines = ctx.tlc("MC_PatternMap", workers=4)
        return ctx.emitted(lines, "map.vec")
    _, (v, n) = parallel(ctx.build, model)
    r = ctx.harness(["replay-patmap", v], what="replay of MC_PatternMap")
    ctx.vectors += r["cases"]
    ctx.exhaustive.append("all sequences of 3 insertions of 2 values under any 2 canonical triple patterns over 2 resources, all 27 lookups")
    pre = ctx.path("map-")
    ctx.harness(["record-patmap", ctx.seed, 400 if ctx.quick else 6000, CORES if ctx.quick else 24, pre], what="recorded pattern map")
    ctx.validate("TracePatternMap", sorted(glob.glob(pre + "*.ndjson")), what="recorded pattern map", control=corrupt)
