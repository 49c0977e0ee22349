"""Regenerates contracts/baseline.json (what every contract is expected to reach) from the output of contracts.run all --out FILE"""
import json, os, sys
d = json.load(open(sys.argv[1]))
assert not d["errors"] and all(c["total"] and c["total"] == c["discharged"] and not c["undecided"] for c in d["contracts"])
base = {c["name"]: dict(covers=c["covers"], props=c["props"]) for c in d["contracts"]}
json.dump(base, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "baseline.json"), "w"), indent=1, sort_keys=True)
from subprocess import check_call
check_call([sys.executable, "-m", "concrete.novel"], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
