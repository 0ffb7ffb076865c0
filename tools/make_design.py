"""Writes DESIGN.md from tools/design_head.md, the targets, tools/design_tail.md, seeded/ and tools/results.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo/src"]
from pbt.core import load_property  # noqa: E402
from pbt.registry import MODULES    # noqa: E402

titles = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    titles[d["id"]] = d["title"]
out = [open(os.path.join(HERE, "tools/design_head.md")).read()]
for p in sorted(MODULES):
    out.append("* **%s — %s** (`props/%s.py`)\n" % (p, titles[p], MODULES[p]))
    for t in load_property(p):
        out.append("  * `%s` (q=%d%s): %s\n" % (t.name, t.quick, ", exhaustive part" if t.enum else "", t.rule))
fixed = [x.strip().split(" ", 1)[1] for x in open(os.path.join(HERE, "known_findings.txt")) if x.startswith("fixed:")]
out.append(open(os.path.join(HERE, "tools/design_tail.md")).read().replace("@FIXED@", "\n".join("* " + x.replace("property=", "") for x in fixed)))
notes = json.load(open(os.path.join(HERE, "tools/notes.json")))
res_path = os.path.join(HERE, "tools/results.json")
res = json.load(open(res_path)) if os.path.exists(res_path) else {}
out.append("| bug | needs | caught by | strengthened |\n|---|---|---|---|\n")
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s | %s |\n" % (b, d["needs"].replace("|", "\\|").replace("\n", " "), res.get(b, d["property"]), notes.get(b, "")))
out.append(open(os.path.join(HERE, "tools/design_end.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
