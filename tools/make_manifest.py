"""Write MANIFEST.json for the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitoring: yearly step recorder judged by an independent dense-matrix reference model",
 "C02": "runtime monitoring: state and diagnostic monitors, metamorphic pairs of runs",
 "C03": "runtime monitoring: energy ledger over recorded years against a reference two-layer model",
 "C04": "runtime monitoring: recorded aerosol shares and feedback judged by a reference thermal model",
 "C05": "runtime monitoring: yearly CO2 of the real carbon cycle against an independent pulse-response reference",
 "C06": "runtime monitoring: carbon ledger over recorded runs, forward replay of back-calculated emissions",
 "C07": "runtime monitoring: pool ledger (conservation) and reference box model over recorded steps",
 "C08": "runtime monitoring: offline checker of recorded concentrations against a per-gas one-box reference",
 "C09": "runtime monitoring: offline checker of recorded component forcings against independent formulas",
 "C10": "runtime monitoring: call recorder at the thermal model, sum ledger and reference thermal model",
 "C11": "runtime monitoring: histories of interleaved runs, snapshots of caller data, bitwise comparison",
 "C12": "runtime monitoring: paired runs with late or truncated input, bitwise prefix comparison",
 "C13": "runtime monitoring: paired runs with file and data input, recorded files parsed back",
 "C14": "runtime monitoring: call recorder at the thermal model against the harness' year-indexed truth tables",
 "C15": "runtime monitoring: paired runs with and without perturbations, exactly-once ledger",
 "C16": "runtime monitoring: exactly-once and order checker over parallel results, injected failures and delays",
 "C17": "runtime monitoring: sample ledger (count, strata, routing, uniqueness) and JSON round trips",
 "C18": "runtime monitoring: reported variables against recorded model series with independent unit conversions",
 "C19": "runtime monitoring: parameter effect probes on the real models, defaults snapshots, equivalent-input pairs",
 "C20": "runtime monitoring: fault injection of malformed input with exception oracle, chemistry and table oracles",
 "C21": "runtime monitoring: recorder of every saved figure (lines, titles, labels) against an independent run's results",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "vmon", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 run_check.py {i} quick", "thorough_cmd": f"python3 run_check.py {i} thorough",
                       "technique": TECH[i], "level": "exploration",
                       "level_note": "Real code executed under generated workloads; holds on every case explored, assumes the reference formulas in vmon/ref.py and the input domain stated in DESIGN.md."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, pandas, scipy'", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
