"""replay of H01, H02 on the real code (compiled natively from /repo), and bounded stand-ins"""
import subprocess
from engine import frontend as F

ROUNDS = 6
DONE = {}


def execute(ctx, what):
    if what not in DONE:
        exe = F.program(F.harness("replay_mesh.cc"))
        n = ROUNDS if ctx.tier == "quick" else 10 * ROUNDS
        args = [what, str(ctx.seed), str(n)]
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=600)
        DONE[what] = (p.returncode, (p.stdout + p.stderr)[-600:], args)
    return DONE[what]


def replay(ctx, what):
    """a failing input for the failed obligations, if random inputs on the real code show one"""
    try:
        rc, out, args = execute(ctx, what)
    except (F.BuildError, subprocess.TimeoutExpired) as e:
        ctx.notes.append("replay: " + str(e)[-300:])
        return
    if rc:
        for f in ctx.failures:
            f["confirmed"] = True
            f["replay"] = dict(kind="program", harness="replay_mesh.cc", args=args, observed=out)


def stand_in(ctx, what, name, where):
    rc, out, args = execute(ctx, what)
    if rc:
        ctx.failed(name, out, where=where, confirmed=True, replay=dict(kind="program", harness="replay_mesh.cc", args=args, observed=out))
    else:
        ctx.stand_in(name, f"random inputs on the compiled code (replay_mesh {' '.join(args)})", where=where)
