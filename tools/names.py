"""writes lib/names.json from the current tree (run when /repo gets a fix commit)"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import names, program
if os.path.exists(names.PATH):
    os.unlink(names.PATH)
d = names.describe(program.gather())
with open(names.PATH, "w") as fp:
    json.dump(d, fp, indent=0, sort_keys=True)
print({k: len(v) for k, v in d.items()})
