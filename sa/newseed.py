"""Development helper: seed(id, property, [(file, old, new[, count])], needs, breaks, demo_main_rs)"""
import json, os, shutil, subprocess
SR = "/tmp/sr"
def seed(id, prop, edits, needs, breaks, demo):
    subprocess.run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", shell=True, cwd=SR, check=True)
    for f, old, new in edits:
        s = open(f"{SR}/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(f"{SR}/{f}", "w").write(s.replace(old, new))
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=SR, stdout=subprocess.PIPE, text=True).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.rs", "w").write(demo)
    shutil.copy("/verif/sa/mkdemo.sh", f"{d}/demo.sh")
    subprocess.run("git checkout -q -f .", shell=True, cwd=SR)
