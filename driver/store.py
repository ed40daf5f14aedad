"""P01 to P08: the containers."""
import glob
import random

from .core import ToolError, parallel

SAME_S, ANY = -2, -1


def universe(name, quads, terms, rg=True, xpats=None):
    if xpats is None:
        xpats = [[-1, -1, -1, -1], [quads[0][0], -1, -1, -1], [-1, -2, -1, -1]]
    return {"name": name, "quads": quads, "terms": terms, "xpats": xpats, "rg": rg, "depth": 20,
            "emit": True, "multi": False, "mseed": 1, "mmod": 20}


def random_universe(rng, name, n, terms, graph):
    """Quads over few terms, each related to an earlier one."""
    while True:
        qs = []
        while len(qs) < n:
            if qs and rng.random() < 0.6:
                q = list(rng.choice(qs))
                q[rng.randrange(3)] = rng.randint(1, terms)
                if rng.random() < 0.5:
                    q[3] = rng.choice([0, 0] + list(range(1, terms + 1)))
            else:
                q = [rng.randint(1, terms) for _ in range(3)] + [rng.choice([0] + list(range(1, terms + 1)))]
            if graph:
                q[3] = 0
            if q not in qs:
                qs.append(q)
        if graph or (any(q[3] == 0 for q in qs) and any(q[3] for q in qs)):
            break
    p = rng.choice([[-1, rng.randint(1, terms), -1, -1], [-1, -1, -2, -1], [-1, -1, -1, rng.randint(0, terms)], [-1, -1, -1, -2]])
    return universe(name, qs, terms + 1, not graph, [[-1, -1, -1, -1], p])


def universes(ctx):
    rng = random.Random(ctx.seed * 7919 + 11)
    datasets_only = ctx.pid in ("P05", "P06", "P07")
    us = [universe("mixed", [[1, 2, 3, 0], [1, 1, 1, 1], [2, 2, 1, 3], [3, 1, 2, 1]], 4)]
    if not datasets_only:
        us.append(universe("graph", [[1, 2, 3, 0], [1, 1, 1, 0], [2, 1, 3, 0], [3, 2, 1, 0]], 4, False))
    us.append(random_universe(rng, "seeded", 4, 3, False))
    if datasets_only:
        us.append(universe("graphs", [[1, 1, 2, 1], [1, 1, 2, 2], [1, 1, 2, 0], [2, 1, 2, 2]], 3))
    else:
        us.append(random_universe(rng, "seeded-graph", 4, 3, True))
    if not ctx.quick:
        for i in range(8):
            us.append(random_universe(rng, f"seeded-{i}", 4, rng.choice([2, 3, 4]), not datasets_only and i % 3 == 2))
        us.append(universe("five", [[1, 2, 3, 0], [1, 1, 1, 1], [2, 2, 1, 3], [3, 1, 2, 1], [1, 2, 3, 1]], 4, True, [[-1, -1, -1, -1]]))
    if ctx.pid == "P05":
        for k, u in enumerate(us):
            u["multi"] = True
            u["mseed"] = ctx.seed * 31 + k
            u["mmod"] = 12 if ctx.quick else 3
    return us


def corrupt(events):
    """A trace that no correct container can produce: one observation altered."""
    obs = [i for i, e in enumerate(events) if e["e"] == "obs" and e["o"]]
    for i in reversed(obs[: max(1, len(obs) // 2)]):
        for o in events[i]["o"]:
            if o["k"] == "len":
                o["r"] += 1
                return events[: i + 1]
            if o["k"] in ("iter", "pat", "multi", "res") and o["r"]:
                o["r"] = o["r"][:-1]
                return events[: i + 1]
    return None


def corrupt_stripe(events):
    """The same at scale: one count altered."""
    obs = [i for i, e in enumerate(events) if e["e"] == "obs" and e["o"]]
    for i in reversed(obs[: max(1, len(obs) // 2)]):
        for o in events[i]["o"]:
            if o["k"] == "len":
                o["r"] += 1
                return events[: i + 1]
            if o["k"] in ("iter", "pat") and o["r"]["cells"]:
                o["r"]["cells"][0][1] -= 1
                return events[: i + 1]
            if o["k"] == "res" and o["r"]["k"]:
                o["r"]["k"][0][1] -= 1
                return events[: i + 1]
    return None


def at_scale(ctx):
    """Operations on whole products of stripes of resources, up to more than 2^16 of them."""
    counts = (320, 80, 16, 16) if ctx.quick else (3200, 800, 160, 160)
    files = 8 if ctx.quick else 32
    prefix = ctx.path("scale-")
    ctx.harness(["record-stripe", ctx.pid, ctx.seed, *counts, files, prefix], what="recorded history at scale")
    ctx.validate("TraceStripe", sorted(glob.glob(prefix + "*.ndjson")), what="recorded history at scale", control=corrupt_stripe)
    ctx.exhaustive.append("agreement of StripeStore with Store: all contents over six cells of stripes of sizes 2, 1, 2, all patterns")


def check(ctx):
    us = universes(ctx)

    def model(u):
        p = ctx.write_json(u["name"] + ".json", u)
        _, lines = ctx.tlc("MC_Store", "MC_Store.cfg", {"STORE_PARAMS": p}, 1, xmx="6g")
        v, n = ctx.emitted(lines, u["name"] + ".vec")
        _, lines = ctx.tlc("MC_StoreTables", "Empty.cfg", {"STORE_PARAMS": p}, 1)
        t, m = ctx.emitted(lines, u["name"] + ".tab")
        ctx.count("table rows", m)
        return u, p, v, t, n

    def deep():
        """Search and partial extraction on the design model."""
        if ctx.pid not in ("P04", "P06"):
            return
        u = dict(us[0], emit=False)
        p = ctx.write_json("deep.json", u)
        ctx.tlc("MC_Store", "MC_StoreSearch.cfg" if ctx.pid == "P04" else "MC_StoreExtract.cfg", {"STORE_PARAMS": p}, 4)

    def stripes():
        ctx.tlc("MC_StripeStore", workers=2)

    jobs = [ctx.build, deep, stripes] + [lambda u=u: model(u) for u in us]
    res = parallel(*jobs)
    for u, p, v, t, n in res[3:]:
        stride = stride_for(ctx, n)
        r = ctx.harness(["replay-store", ctx.pid, p, t, v, stride], what=f"replay of MC_Store over universe {u['quads']}")
        ctx.vectors += r["cases"]
        ctx.note(f"universe {u['name']}: {n} transitions, {r['cases']} histories replayed, {r['checks']} comparisons")
        if stride == 1:
            ctx.exhaustive.append(f"all histories up to equivalence of internal states over {u['quads']}")
    traces = 480 if ctx.quick else 6000
    files = 8 if ctx.quick else 32
    prefix = ctx.path("rec-")
    ctx.harness(["record-store", ctx.pid, ctx.seed, traces, files, prefix], what="recorded history")
    ctx.validate("TraceStore", sorted(glob.glob(prefix + "*.ndjson")), control=corrupt)
    ctx.note(f"{ctx.traces} recorded histories, {ctx.events} events accepted by TraceStore")
    at_scale(ctx)
    ctx.note(f"{ctx.traces} recorded histories, {ctx.events} events accepted with those at scale")


def stride_for(ctx, n):
    return 1
