"""Setters reach the requested state."""
import os
from vf import core, build
from checks.states import SYS, scenario, HEPTANE, MOLAL


def run(ctx):
    core.model_check(ctx, "StateSpec", "MC_State", invariants=("MCInv",), constraint="MCBound")
    r = ctx.rng()
    only = os.environ.get("ONLY")
    sys_ = [s for s in SYS if not only or only in s["file"] + ":" + s["phase"]]
    n = ctx.pick(3000, 25000)
    data = os.path.join(build.REPO, "data") + ":" + os.path.join(build.REPO, "test", "data")
    scen = [scenario(r, s) for s in r.choices(sys_, [s["w"] for s in sys_], k=n)] + [HEPTANE, MOLAL]
    core.conform(ctx, "StateSpec", "state", scen, "Trace_State",
                 env={"CANTERA_DATA": data}, timeout=700)
