#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the monitors present in harness/cmd."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
REF = "runtime monitoring: reference-model oracle over recorded executions"
T = {
 "C01": REF + " (bottom-up evaluation of the polynomial)",
 "C02": "runtime monitoring: conservation monitor (marginals against summed completions)",
 "C03": REF + " (max-product evaluation, state and trace checkers)",
 "C04": "runtime monitoring: trace checker of visit orders",
 "C05": "runtime monitoring: round-trip monitor with exact graph comparison",
 "C06": REF + " (scopes, validity, height, normalisation)",
 "C07": REF + " (reverse-mode differentiation, finite differences)",
 "C08": REF + " (documented generative update replayed step by step)",
 "C09": REF + " (documented discriminative update replayed step by step)",
 "C10": "runtime monitoring: invariant monitors on learned networks, plus race detector",
 "C11": "runtime monitoring: invariant monitors on learned networks",
 "C12": "runtime monitoring: invariant monitors on learned networks and region codes",
 "C13": "runtime monitoring: conservation (partition) and connectivity monitors on clusterings",
 "C14": REF + " (p-values, components of the dependence graph)",
 "C15": "runtime monitoring: online concurrency monitors under stress and injected delays, race detector, deadlock watchdog",
 "C16": "runtime monitoring: Go race detector and sequential-equivalence monitor under stress",
 "C17": "runtime monitoring: model-based history checker",
 "C18": "runtime monitoring: model-based history checker",
 "C19": "runtime monitoring: conservation and aliasing monitors",
 "C20": "runtime monitoring: round-trip monitor on generated files",
 "C21": "runtime monitoring: round-trip monitor on generated npy files",
 "C22": "runtime monitoring: round-trip monitor on generated images",
 "C23": "runtime monitoring: arbitrary-precision reference oracle",
 "C24": "runtime monitoring: exactly-once accounting monitor, race detector",
 "C25": REF + " (definitions of the estimators)",
 "C26": "runtime monitoring: replay-equality monitor and model-based history checker",
 "C27": "runtime monitoring: round-trip monitor and model-based history checker",
 "C28": "runtime monitoring: round-trip monitor (drawings parsed back, scripts executed against a recording stand-in)",
 "C29": "runtime monitoring: model-based history checker under injected connection faults",
 "C30": "runtime monitoring: log-history checker and quiet/verbose equivalence monitor",
 "C31": "runtime monitoring: recording learner and accounting monitor against reference posteriors",
 "C32": "runtime monitoring: concurrency monitor in the learner, drawn images judged against a max-product reference, race detector, deadlock watchdog",
 "C33": "runtime monitoring: end-to-end monitor of the built program (exit status, output, files)",
}
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.isdir(os.path.join(here, "harness/cmd", i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s quick" % i,
            "thorough_cmd": "./run.sh %s thorough" % i,
            "technique": T[i],
            "level": "exploration",
            "level_note": "Held on the executions explored, not proved. Trusts the reference model or monitor in harness/cmd/%s and harness/net, and the Go runtime; see DESIGN.md for the workload and its bounds." % i.lower(),
        })
    else:
        na.append({"property": i, "reason": "no monitor built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors use exported interfaces only, so there is no guard to enable. Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
