"""C02: the server follows the driver protocol on every connection."""

import random

from harness import sockcheck as K

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the wire protocol checked with TLC; scripted clients decode every byte the real server sends over unix, inet and shared-memory transports and each recorded conversation (with deaths, hangs, initialisation modes, early shutdown) is validated against the specification with TLC"
NOTE = "every byte of INIT/POSDATA is compared with the request; conversations sampled over transports x dispatch modes x initialisation x active sets x faults"


def run(ctx):
    K.check_model(ctx, not ctx.quick)
    rng = random.Random(ctx.seed + 1000)
    if ctx.quick:
        scs = K.stalled(rng) + K.layout(rng, 90) + K.early_stop(rng, 18) + K.healthy(rng, 18) + K.hang_enumeration(rng, K.CONFIGS[:3])
        f = K.fault_enumeration(rng, occ=(1, 2))
        rng.shuffle(f)
        scs += f[:40]
    else:
        scs = []
        for s in range(4):
            rng = random.Random(ctx.seed * 1000 + s)
            scs += K.stalled(rng) + K.layout(rng, 360) + K.early_stop(rng, 54) + K.healthy(rng, 90) + K.hang_enumeration(rng)
            scs += K.fault_enumeration(rng, occ=(1, 2))
    res = K.campaign(ctx, scs)
    for i in (0, len(scs) // 2, len(scs) - 1):
        ctx.sample({"clients": scs[i]["clients"], "mode": scs[i]["mode"], "nat": scs[i]["nat"], "events": len(res[i].get("trace", []))})
    ctx.assumptions += [
        "the documented layout of POSDATA is the one the bundled drivers implement",
    ]
