"""The exploring process: python -m mc.child Cxx [quick|thorough] [--replay FILE]"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")


def known_findings(prop):
    """known_findings.txt: `known: property=<id> signature=<scenario/sig> :: <what>`"""
    out = {}
    p = os.path.join(os.environ["VERIF_HOME"], "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p, encoding="utf8"):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        head, what = line.split("::", 1)
        f = dict(e.split("=", 1) for e in head.split()[1:])
        if f["property"] == prop:
            out[f["signature"]] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    home = os.environ["VERIF_HOME"]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "thorough" in rest:
        tier = "thorough"
    if "quick" in rest:
        tier = "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    from mc.engine import Explorer

    exp = Explorer(prop, tier, seed)
    known = known_findings(prop)
    exp.known = set(known)
    if "--replay" in rest:
        r = json.load(open(rest[rest.index("--replay") + 1]))
        exp.only = (r["scenario"], r["choices"])
    crash = None
    level = "model_checking"
    sys.stdout.flush()
    try:
        mod = importlib.import_module("mc.checks." + prop.lower())
    except Exception as e:
        if not isinstance(e, (ImportError, SyntaxError)) or "mc.checks" not in str(e):
            crash = traceback.format_exc()
        else:
            raise
    if crash is None:
        level = getattr(mod, "LEVEL", level)
        try:
            mod.run(exp)
        except MemoryError:
            raise
        except Exception:
            crash = traceback.format_exc()
    if crash is not None:
        exp.violations.append(
            ("setup", "exception:setup", "the checked code failed while a scenario was prepared\n" + crash, [], [])
        )

    wall = time.time() - exp.t0
    new = []
    for (sc, sig, msg, ch, tr) in exp.violations:
        key = f"{sc}/{sig}"
        if key in known:
            continue
        new.append((sc, sig, msg, ch, tr))
    seen = {f"{v[0]}/{v[1]}" for v in exp.violations}
    for key, what in known.items():
        if exp.only is None and key in seen:
            print(f"KNOWN-FINDING: property={prop} {what}", flush=True)

    cov = dict(
        states=len(exp.states),
        transitions=exp.transitions,
        traces_validated_against_impl=exp.traces,
        assertions=exp.assertions,
        executions_replayed_for_determinism=exp.replayed,
        exhaustive=not exp.capped and not new,
        scenarios=exp.scenarios,
        samples=exp.samples or ["(no execution completed)"],
    )
    if exp.capped:
        cov["capped"] = exp.capped
    if level == "fault_enumeration":
        cov["evaluations"] = exp.traces
        cov["distinct_nontrivial"] = len(exp.states)
        cov["rule"] = getattr(mod, "RULE", "")
    cov.update(exp.notes)
    if exp.only is None:
        evd = os.path.join(home, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, prop + ".json"), "w", encoding="utf8") as f:
            json.dump(
                dict(
                    property=prop,
                    tier=tier,
                    seed=seed,
                    level=level,
                    coverage=cov,
                    assumptions=exp.assumptions,
                    wall_s=round(wall, 1),
                    violations=len(new),
                ),
                f,
                indent=1,
                ensure_ascii=False,
                default=str,
            )
    for name, s in exp.scenarios.items():
        print(f"  {name}: {s}")
    print(
        f"{prop} {tier}: states={len(exp.states)} transitions={exp.transitions} "
        f"executions={exp.traces} assertions={exp.assertions} wall={wall:.1f}s"
        + (f" CAPPED={exp.capped}" if exp.capped else ""),
        flush=True,
    )
    if new:
        d = os.path.join(home, "replays")
        os.makedirs(d, exist_ok=True)
        for n, (sc, sig, msg, ch, tr) in enumerate(new):
            path = os.path.join(d, f"{prop}-{n}.json")
            with open(path, "w", encoding="utf8") as f:
                json.dump(
                    dict(
                        property=prop, scenario=sc, signature=sig, choices=ch, trace=tr, message=msg,
                        how=f"{home}/run.sh {prop} --replay {path}",
                    ),
                    f, indent=1, ensure_ascii=False, default=str,
                )
            first = msg.strip().splitlines()[0] if msg.strip() else ""
            print(f"  [{sc}/{sig}] {' | '.join(tr)[:500]}\n     {msg.strip()[:1500]}")
            print(f"VIOLATION property={prop} replay={path} :: {sc}/{sig} {first[:200]}", flush=True)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


try:
    main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(2)
