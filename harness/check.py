"""check.py PROPERTY: decide one property on the current tree of /repo."""
from __future__ import annotations

import importlib
import json
import os
import random
import re
import sys
import time
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import pool  # noqa: E402
import tlc  # noqa: E402
from plan import PLAN  # noqa: E402

VERIF = Path(__file__).resolve().parent.parent


def known_findings() -> list[dict]:
    res = []
    for line in (VERIF / "known-findings.txt").read_text().splitlines():
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m:
            res.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return res


def mc_cfg(module: str, tier: str, emit: bool) -> str:
    text = (tlc.SPEC / f"{module}.cfg").read_text()
    text = re.sub(r'Tier = "\w+"', f'Tier = "{tier}"', text)
    return re.sub(r"Emit = \w+", f"Emit = {'TRUE' if emit else 'FALSE'}", text)


def main() -> int:
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    start = time.monotonic()
    ev_path = VERIF / "evidence" / f"{prop}.json"
    ev_path.parent.mkdir(exist_ok=True)
    ev_path.unlink(missing_ok=True)

    states = transitions = traces = steps = replayed = canaries = 0
    samples, notes, failures, mc_runs, ops = [], [], [], [], {}
    findings: dict[str, str] = {}
    known = [f for f in known_findings() if f["property"] == prop]
    started = []
    try:
        for suite, mcs in PLAN[prop].items():
            for module, emit in mcs:
                started.append((suite, module, emit, tlc.TLC(module, workers=4 if tier == "quick" else 8,
                                                             cfg_text=mc_cfg(module, tier, emit))))
        timing = os.environ.get("VERIF_TIMING")
        for suite, mcs in PLAN[prop].items():
            mod = importlib.import_module(f"suite_{suite}")
            r = random.Random(f"{seed}/{prop}/{suite}")
            scen = mod.generate(prop, seed, tier)
            by_id = {json.dumps(s["id"]): s for s in scen}
            t0 = time.monotonic()
            sessions = pool.run(suite, scen)
            if timing:
                print(f"# {suite}: {len(scen)} scenarios in {time.monotonic() - t0:.1f}s", file=sys.stderr)
            model_scen = []
            for s2, module, emit, run in started:
                if s2 != suite:
                    continue
                res = tlc.check_clean(run.wait(), module)
                states += res.distinct
                transitions += res.generated
                mc_runs.append({"module": module, "distinct_states": res.distinct, "generated": res.generated})
                if emit:
                    got = mod.from_model(res.tagged("S"))
                    if not got:
                        raise tlc.Machinery(f"{module} printed no scenario")
                    cap = getattr(mod, "MODEL_CAP", {}).get((prop, tier)) or getattr(mod, "MODEL_CAP", {}).get(tier)
                    if cap and len(got) > cap:
                        got = r.sample(got, cap)
                    model_scen += got
            if timing:
                print(f"# mc done at {time.monotonic() - start:.1f}s", file=sys.stderr)
            if model_scen:
                t0 = time.monotonic()
                by_id.update({json.dumps(s["id"]): s for s in model_scen})
                msess = pool.run(suite, model_scen)
                replayed += len(msess)
                said = [mod.agrees(s, m) for s, m in zip(model_scen, msess)]      # None: the model does not say
                differ = [m for a, m in zip(said, msess) if a is not None and not a]
                same = [m for a, m in zip(said, msess) if a]
                open_ = [m for a, m in zip(said, msess) if a is None]
                sessions += differ[:300] + r.sample(same, min(len(same), 150)) + open_
                if timing:
                    print(f"# replayed {len(msess)} model behaviours in {time.monotonic() - t0:.1f}s, "
                          f"{len(differ)} differ", file=sys.stderr)
                model_differ = {json.dumps(m["id"]) for m in differ[:300]}
            else:
                model_differ = set()
            # corrupted copies, which the specification has to reject
            want_reject = []
            for s in r.sample(sessions, min(len(sessions), 60)):
                for n, e in enumerate(s["ev"]):
                    c = mod.corrupt(e)
                    if c is not None:
                        want_reject.append({"id": ["canary", s["id"], n], "ev": s["ev"][:n] + [c]})
                        break
            if hasattr(mod, "split"):          # sessions judged by different trace modules
                groups = mod.split(sessions + want_reject)
            else:
                groups = {mod.TRACE: sessions + want_reject}
            verdicts = []
            for tmod, ss in groups.items():
                t0 = time.monotonic()
                v, res = tlc.validate(tmod, ss)
                verdicts += v
                states += res.distinct
                transitions += res.generated
                if timing:
                    print(f"# {tmod}: judged {sum(len(s['ev']) for s in ss)} steps in {time.monotonic() - t0:.1f}s",
                          file=sys.stderr)
            rejected = {json.dumps(v["id"]) for v in verdicts if isinstance(v["id"], list) and v["id"][:1] == ["canary"]}
            canaries += len(rejected)
            if want_reject and len(rejected) < len({json.dumps(w["id"]) for w in want_reject}) * getattr(mod, "CANARY_RATE", .5):
                raise tlc.Machinery(f"the specification accepts corrupted outcomes: {len(rejected)} of "
                                    f"{len(want_reject)} rejected")
            traces += len(sessions)
            for s in sessions:
                steps += len(s["ev"])
                for e in s["ev"]:
                    key = e["op"] + ("" if e["out"].get("ok", True) else "/error")
                    ops[f"{suite}.{key}"] = ops.get(f"{suite}.{key}", 0) + 1
            by_sess = {json.dumps(s["id"]): s for s in sessions}
            for v in verdicts:
                k = json.dumps(v["id"])
                if k not in by_sess:
                    if k in rejected:
                        continue
                    raise tlc.Machinery(f"verdict on an unknown session {k}")
                e = by_sess[k]["ev"][v["n"]]
                model_differ.discard(k)
                for clause in sorted(v["bad"]):
                    if prop not in mod.properties_of(clause, e):
                        notes.append(f"{clause} (not of this property)")
                        continue
                    key = mod.finding(clause, e) if hasattr(mod, "finding") else None
                    hit = [f for f in known if f["key"] == key] if key else []
                    if hit:
                        findings[hit[0]["key"]] = hit[0]["what"]
                        continue
                    failures.append({"suite": suite, "id": v["id"], "step": v["n"], "clause": clause,
                                     "scenario": by_id.get(k), "event": e})
            for k in sorted(model_differ):
                raise tlc.Machinery(f"replay of {k} differs from the model, but the trace specification accepts it: "
                                    f"{json.dumps(by_sess[k])[:3000]}")
            for s in r.sample(sessions, min(3, len(sessions))):
                t = json.dumps(s)
                samples.append(s if len(t) < 3000 else t[:3000] + "...")
    except tlc.Machinery as err:
        print(f"ERROR of the check {prop}: {err}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        for *_, run in started:
            run.stop()

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
                     "samples": samples, "model_runs": mc_runs, "model_behaviours_replayed": replayed,
                     "recorded_steps": steps, "steps_by_kind": dict(sorted(ops.items())),
                     "corrupted_outcomes_rejected": canaries,
                     "clauses_failing_for_other_properties": sorted(set(notes))},
        "assumptions": ["TLC and the trace harness are correct",
                        "behaviour outside the generated scenarios is covered by the specification only"],
        "wall_s": round(time.monotonic() - start, 2), "violations": len(failures),
    }
    ev_path.write_text(json.dumps(evidence, indent=1) + "\n")
    for key, what in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if failures:
        out = VERIF / "replays"
        out.mkdir(exist_ok=True)
        seen: dict[str, int] = {}
        for f in sorted(failures, key=lambda f: len(json.dumps(f))):
            seen[f["clause"]] = seen.get(f["clause"], 0) + 1
            if seen[f["clause"]] > 1 or len(seen) > 8:
                continue
            name = f"{prop}-{re.sub(r'[^a-z0-9]+', '-', f['clause'])}.json"
            (out / name).write_text(json.dumps(f, indent=1) + "\n")
            print(f"# {prop}: clause {f['clause']} fails in {f['id']}")
            print(f"VIOLATION property={prop} replay={out / name}")
        return 1
    print(f"{prop}: held on {traces} recorded traces ({steps} steps), {replayed} replayed model behaviours, "
          f"{states} states; {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
