"""Writes MANIFEST.json: a check for every property which has a module in pbt/."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl")) if l.strip()]
checks, na = [], []
TECH = {
    "C01": "property-based testing: generated byte streams and read/write splits, per-message traffic compared with a reference splitter",
    "C02": "property-based testing: generated chains and data, byte equality with the source (end to end)",
    "C03": "property-based testing: generated fan-in and fan-out networks against a reference model of what each drain may receive",
    "C04": "model-based property-based testing of a junction with scripted sends and receives against a sound priority/turn oracle",
    "C05": "property-based testing with generated early closing receivers and pipe kinds, against the documented outcome",
    "C06": "property-based testing: generated programs (stdout, stderr, exit status, signals, closing order) against exact expected ports",
    "C07": "property-based fault injection: generated networks and failures, oracle for termination, status and completeness",
    "C08": "model-based property-based testing of buffers with scripted sends, receives and size reports",
    "C09": "property-based testing: generated networks with a gated consumer, bound on what producers get rid of",
    "C10": "model-based property-based testing of regulators: generated watermarks, buffers, bursts and gated consumers",
    "C11": "property-based testing / grammar fuzzing of JoinStrings against an independent reference parser",
    "C12": "property-based testing: metamorphic relation between implicit and explicit junctions, and model of manipulate",
    "C13": "stateful model-based property-based testing: edit sequences against a model of the configuration",
    "C14": "property-based testing: round trips JSON/YAML/file/stdin of generated configurations against their meaning",
    "C15": "property-based testing: generated configurations against a reference lint",
    "C16": "property-based testing: DOT output parsed by an own parser and compared with a reference graph",
    "C17": "property-based testing: generated networks of special and file places, exact content of stdout, stderr and files",
    "C18": "property-based testing: generated commands, arguments, environments and directories against what the program records",
    "C19": "fuzzing of configuration bytes, mutated documents and structured invalid configurations, oracle of clean refusal",
    "C20": "property-based testing: generated loops and per message round counts against an exact model",
    "C21": "property-based testing: differential run with and without observer, traffic against a reference model",
    "C22": "property-based fault injection: generated failures against the exact set of reports",
}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(D, "pbt", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "bash run.sh " + i, "technique": TECH[i],
                       "level": "exploration",
                       "level_note": "Searched with generated inputs, not proved: covers the cases of the evidence file only; DESIGN.md says what is generated and what the oracle demands."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
