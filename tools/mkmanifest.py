#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props
NOTE = ("The real library runs in real processes; the verdict covers the executions that occurred (counts in the "
        "evidence), not all. Trusted: the kernel, the harness' log and oracle, the shared monotonic clock.")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = getattr(props, "NOT_APPLICABLE", {})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"python3 check.py {p} --thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": s["technique"],
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", NOTE),
        }
        for p, s in sorted(props.PROPS.items())
    ],
    "not_applicable": [{"property": p, "reason": NA.get(p, "its check is still being built")} for p in ids if p not in props.PROPS],
    "notes": "No hooks in /repo: the oracles sit at the public interface and at the kernel boundary. "
    "/repo carries only fix: commits, listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
