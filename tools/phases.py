"""Runs the phase program (harness/phase.cpp) and compares what its phases print."""
import os
import subprocess

NAMES = ["init", "main", "thread", "threadexit", "atexit", "destructor"]


def lines(exe, seed, steps, which):
    env = dict(os.environ, PHASE_SEED=str(seed), PHASE_STEPS=str(steps), PHASES="".join(w + "," for w in which), LC_ALL="C")
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return None, []
    out = r.stdout.decode(errors="replace").split("\n")
    return r.returncode, [tuple(x.split(" ", 1)) for x in out if " " in x]


def differs(exe, seed, steps, which):
    """None, or what is wrong."""
    code, ref = lines(exe, seed, steps, ["main"])
    if code != 0 or len(ref) != 1:
        return "the computation in main alone ends with %s (seed %d, %d steps)" % (code, seed, steps)
    code, got = lines(exe, seed, steps, which)
    for name, text in got:
        if text != ref[0][1]:
            k = next((i for i, (p, q) in enumerate(zip(text.split(";"), ref[0][1].split(";"))) if p != q), -1)
            p, q = text.split(";"), ref[0][1].split(";")
            return "phase %s gives %s where main alone gives %s (item %d of seed %d, %d steps, computing in %s)" % (name, p[k][:200] if k >= 0 else "fewer items", q[k][:200], k, seed, steps, ",".join(which))
    want = {w for w in which} | ({"threadexit"} if "threadexit" in which else set())
    if code != 0 or not want <= {n for n, _ in got}:
        return "the program ends with %s after the phases %s of %s (seed %d, %d steps)" % (code, ",".join(n for n, _ in got), ",".join(which), seed, steps)
    return None


def shrink(exe, seed, steps, which):
    best = (seed, steps, list(which))
    message = differs(exe, *best)
    if not message:
        return best, "phases differ, not reproduced"
    for n in range(1, steps):
        m = differs(exe, seed, n, which)
        if m:
            best, message = (seed, n, list(which)), m
            break
    changed = True
    while changed and len(best[2]) > 1:
        changed = False
        for w in list(best[2]):
            t = (best[0], best[1], [x for x in best[2] if x != w])
            m = differs(exe, *t)
            if m:
                best, message, changed = t, m, True
                break
    return best, message
