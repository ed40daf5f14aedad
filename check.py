#!/usr/bin/env python3
"""check.py <property>: decides one property of rdf-types on the current tree of /repo.

Exit 0: held on everything explored. Exit 1: broken (VIOLATION lines). Exit 2: the
check could not be carried out."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from driver import core, families  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = core.Ctx(pid, tier, seed)
    try:
        families.CHECKS[pid](ctx)
        ctx.finish()
        ctx.note(f"states {ctx.states} transitions {ctx.transitions} vectors {ctx.vectors} traces {ctx.traces} comparisons {ctx.checks} violations {len(ctx.violations)}")
        return 1 if ctx.violations else 0
    except core.ToolError as e:
        print(f"TOOL-ERROR {pid}: {e}", flush=True)
        if ctx.violations:
            ctx.finish()
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return 1
        return 2
    finally:
        if not os.environ.get("KEEP"):
            ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
