#!/usr/bin/env python3
"""manifest_add.py ID TECHNIQUE [LEVEL_NOTE]: adds or replaces a check in MANIFEST.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"); m = json.load(open(p))
D = next(c["level_note"] for c in m["checks"] if c["property"] == "C01"); i = sys.argv[1]
m["checks"] = [c for c in m["checks"] if c["property"] != i] + [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "technique": sys.argv[2], "level": "exploration", "level_note": sys.argv[3] if len(sys.argv) > 3 else D}]
m["checks"].sort(key=lambda c: c["property"]); json.dump(m, open(p, "w"), indent=1)
