"""C01: every queued socket evaluation is answered exactly once with its own
result.  Socket.tla (safety and liveness) + scripted clients + SocketTrace."""

import random

from harness import sockcheck as K

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of server/clients checked with TLC (safety, liveness); fault schedules enumerated and drawn from the specification are played by scripted clients against the real server, and every recorded wire/submitter trace is validated against the specification with TLC"
NOTE = "bounded model (2-3 clients, 2-3 requests, faults); the real server is exercised over unix/inet/shm, threaded/consolidated/batched dispatch, with deaths at every protocol point and hung clients"


def run(ctx):
    K.check_model(ctx, not ctx.quick)
    rng = random.Random(ctx.seed)
    if ctx.quick:
        scs = K.fault_enumeration(rng, occ=(1, 2))
        rng.shuffle(scs)
        scs = scs[:150]
        scs += K.stalled(rng) + K.hang_enumeration(rng) + K.late_attach(rng) + K.healthy(rng, 27) + K.racing_death(rng, 45)
        w = K.spec_walks(ctx, rng, 150)
        scs += w[:45]
    else:
        scs = []
        for s in range(4):
            rng = random.Random(ctx.seed * 100 + s)
            scs += K.fault_enumeration(rng, occ=(1, 2, 3))
            scs += K.stalled(rng) + K.hang_enumeration(rng) + K.late_attach(rng) + K.healthy(rng, 90) + K.racing_death(rng, 180)
        scs += K.spec_walks(ctx, rng, 1500)[:700]
    res = K.campaign(ctx, scs)
    for i in (0, len(scs) // 2, len(scs) - 1):
        ctx.sample({"clients": scs[i]["clients"], "mode": scs[i]["mode"], "events": len(res[i].get("trace", []))})
    ctx.assumptions += [
        "clients follow the driver protocol until they die or hang; hangs happen only while computing or in the middle of an answer",
        "the socket time constants (TIMEOUT, SERVERTIMEOUT) of the module are reduced for the tests",
    ]
