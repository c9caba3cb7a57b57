#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT: records the change in /repo's working tree as /verif/seeded/ID and undoes it."""
import json, os, subprocess, sys, shutil
i, p, needs, what = sys.argv[1:5]
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
if diff.strip():
    open(d + "/patch.diff", "w").write(diff)
json.dump(dict(property=p, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
