"""Regenerate spec/fingerprints.json (verified functions, used to point at a location) and
spec/slow.json (probe costs, used to order the work)."""
import glob, json, sys
sys.path.insert(0, "/verif")
from sa import check
json.dump({k: v[0] for k, v in sorted(check.fn_hashes("/repo/src").items())},
          open("/verif/spec/fingerprints.json", "w"), indent=0)
slow = {}
for f in glob.glob("/verif/evidence/C*.json"):
    for p in json.load(open(f))["coverage"]["per_probe"]:
        if p["seconds"] > 1:
            slow[p["probe"]] = round(p["seconds"])
json.dump(slow, open("/verif/spec/slow.json", "w"), indent=0, sort_keys=True)
