#!/usr/bin/env python3
"""Lists the contracts that the last runs did not prove (from evidence/)."""
import glob, json
for f in sorted(glob.glob("/verif/evidence/*.json")):
    for x in json.load(open(f))["coverage"].get("functions_under_contract", []):
        if x["status"] != "proved": print(f[-8:-5], x["contract"], x["status"], x["why"][:200])
