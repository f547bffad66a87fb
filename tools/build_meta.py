"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["meta"]["title"]) <= 80, p["meta"]["title"]
        f.write(json.dumps(p["meta"]) + "\n")
    for p, _ in NOT_APPLICABLE:
        f.write(json.dumps(p) + "\n")
checks = [dict(property=p["meta"]["id"], quick_cmd="bash check.sh " + p["meta"]["id"],
               thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["meta"]["id"],
               technique="model checking: bounded exhaustive exploration of the real code against a "
                         "reference model",
               level="model_checking", level_note=p["note"]) for p in PROPS]
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas'", checks=checks,
           not_applicable=[dict(property=p["id"], reason=r) for p, r in NOT_APPLICABLE])
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
