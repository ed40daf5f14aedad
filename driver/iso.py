"""P12, P13: isomorphism."""
import glob

from .core import CORES, parallel


def corrupt(part):
    def f(evs):
        for i, e in enumerate(evs):
            if part == "decision":
                e["i"] = 1 - e["i"]
                return evs[:i + 1]
            if e["w"] and e["f"]:
                e["f"] = e["f"][1:]
                return evs[:i + 1]
        return None
    return f


def check(ctx):
    part = "decision" if ctx.pid == "P12" else "witness"
    unis = list(range(1, 20))

    def model(u):
        env = {"UNIVERSE": u}
        if not ctx.quick:
            env["DEEP"] = 1
        _, lines = ctx.tlc("MC_Iso", "Empty.cfg", env)
        v, n = ctx.emitted(lines, f"iso{u}.vec")
        with ctx.lock:
            ctx.states += n
            ctx.transitions += n
        return v
    # the procedure itself: decides, returns witnesses, greedy pairing loses nothing
    design = [lambda u=u, m=m: ctx.tlc("MC_IsoImpl", None, {"UNIVERSE": u, "MAX": m}, 1 if ctx.quick else 4) for u, m in ([(1, 3), (3, 2), (4, 2)] if ctx.quick else [(1, 4), (2, 2), (3, 3), (4, 2)])]
    # datasets of paths, cycles and stars: the census decides
    design.append(lambda: ctx.tlc("MC_Components", "Empty.cfg", {"MAX": 4 if ctx.quick else 6}))
    vs = parallel(ctx.build, *[lambda u=u: model(u) for u in unis], *design)[1:len(unis) + 1]
    for u, v in zip(unis, vs):
        r = ctx.harness(["replay-iso", part, ctx.seed, 150000 if ctx.quick else 6000000, v], what=f"pairs of universe {u}")
        ctx.vectors += r["cases"]
    ctx.exhaustive.append("the design model of the procedure (signatures, candidates, greedy pairing, backtracking) against the definition on all pairs of small datasets; all pairs of digraphs on 3 blank nodes; all datasets of 12 universes of links between each two of the four positions (two labels between 2+2 blank nodes; digraphs on 3 blank nodes); classes of all datasets of 6 further universes (4 blank nodes; blank predicates and graphs; two graphs); among them all pairs that differ although their blank nodes have the same neighbourhoods, and a sample of the others of equal size")
    ctx.note("pairs decided")
    pre = ctx.path("iso-")
    ctx.harness(["record-iso", ctx.seed, 3000 if ctx.quick else 60000, CORES if ctx.quick else 32, pre], what="recorded decision")
    ctx.validate("TraceIso", sorted(glob.glob(pre + "*.ndjson")), env={"PART": part}, what="recorded decision", control=corrupt(part))
