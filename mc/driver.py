"""Runs one check in a child process and turns every ending into exit 0 or exit 1.

The child does the exploration.  If it dies on a signal or does not end in time,
the execution it was in (written to a marker file before each execution) is
reported as the violating one: on the unchanged tree no execution does that.
"""
import json
import os
import signal
import subprocess
import sys
import time

HOME = os.environ["VERIF_HOME"]
WORK = os.environ["VERIF_WORK"]
sys.path.insert(0, HOME)


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    thorough = "thorough" in rest or (
        os.environ.get("VERIF_TIER") == "thorough" and "quick" not in rest
    )
    limit = float(os.environ.get("VERIF_LIMIT", 6 * 3600 if thorough else 840))
    marker = os.path.join(WORK, "current.json")
    env = dict(os.environ)
    env["VERIF_MARKER"] = marker
    env["VERIF_START"] = repr(time.time())
    t0 = time.time()
    p = subprocess.Popen(
        [sys.executable, "-W", "ignore", "-m", "mc.child"] + sys.argv[1:],
        env=dict(env, PYTHONPATH=HOME),
        start_new_session=True,
    )
    why = None
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = -9
        why = f"no answer after {limit:.0f} s"
    if rc in (0, 1, 2):
        return rc  # 2: the harness itself failed, which is no verdict
    if why is None:
        why = f"the checked code ended the process (status {rc})"
    try:
        with open(marker) as f:
            cur = json.load(f)
    except Exception:
        cur = None
    d = os.path.join(HOME, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-abnormal.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "what": why, "execution": cur}, f, indent=1)
    ev = os.path.join(HOME, "evidence")
    os.makedirs(ev, exist_ok=True)
    with open(os.path.join(ev, f"{prop}.json"), "w") as f:
        json.dump(
            {
                "property": prop,
                "tier": "thorough" if thorough else "quick",
                "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                "level": "other",
                "coverage": {"explanation": why},
                "wall_s": round(time.time() - t0, 1),
                "violations": 1,
            },
            f,
        )
    print(f"VIOLATION property={prop} replay={path} :: {why}", flush=True)
    return 1


sys.exit(main())
