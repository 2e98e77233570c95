"""Lays out one planted bug: mkseed.py ID PROPERTY KIND DIR_WITH_FILES NEEDS WHAT ; the diff is /repo's current working tree."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, src, needs, what = sys.argv[1:6]
d = f"{V}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
for f in os.listdir(src):
    shutil.copy(os.path.join(src, f), d)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
print(d, os.listdir(d))
