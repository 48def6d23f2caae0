"""Writes MANIFEST.json: python3 tools/manifest.py"""
import json, os, re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
# property: (level, technique, note)
checks = {
    "C01": ("exploration", MON + "model of all writes compared with every Decrypt, over four IO Providers and several instances",
            "Random histories and all small lengths; lengths up to a few MB."),
    "C02": ("exploration", MON + "every call compared with a decision oracle for scopes and access lists, with a check of its effect",
            "All 512 scope sets are enumerated against 9 group configurations; names and histories are sampled."),
    "C03": ("exploration", MON + "set model of every access list, observed through lists and the access of each caller",
            "Random histories. Known finding: IDs that are not valid UTF-8."),
    "C04": ("exploration", MON + "storage snapshots around every refused call, results inspected, histories compared with a model that ignores refused calls",
            "Random histories over all operations and reasons for refusal."),
}
extra = os.path.join(root, "tools", "manifest_more.py")
if os.path.exists(extra):
    exec(open(extra).read())
titles = {}
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    titles[p["id"]] = p["title"]
out = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
         "technique": t, "level": lv, "level_note": n}
        for i, (lv, t, n) in sorted(checks.items())
    ],
    "not_applicable": [{"property": i, "reason": "its check is not built yet"} for i in sorted(titles) if i not in checks],
}
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
