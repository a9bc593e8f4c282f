"""Writes MANIFEST.json."""
import json
HERE = __file__.rsplit("/", 2)[0]
NA = {
    "P20": "pure function of its inputs: signing and verifying meet no schedule, time, I/O or fault, so there is nothing for a simulator to decide (the checks of P05 exercise it as a component)",
    "P21": "build-time code generation, a pure function of the protobuf definitions: no schedule, time, I/O or fault in it",
}
NOTES = json.load(open(HERE + "/tools/notes.json"))
checks = []
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in NA or i not in NOTES:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bash tools/check.sh %s quick" % i,
        "thorough_cmd": "bash tools/check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: " + NOTES[i]["technique"],
        "level": "exploration",
        "level_note": NOTES[i]["note"],
    })
na = [{"property": i, "reason": r} for i, r in NA.items()]
for l in open(HERE + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in NA and i not in NOTES:
        na.append({"property": i, "reason": "no check yet"})
json.dump({
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "verif", "enable": "go build -tags verif (tools/build.py), with the harness overlaid as package verifsim",
              "source_commits": ["0295cc20cb1609e70e88e662bb7d87d1cad81415", "76ef11dbfb033ee2871ade344138ad360d29c02a"]},
    "checks": checks,
    "not_applicable": na,
}, open(HERE + "/MANIFEST.json", "w"), indent=1)
