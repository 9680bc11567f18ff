"""tools/mkbug.py <id> <property> <file> <needs> <what>  with old/new text on stdin separated by lines of ====
(several old/new pairs: separated by lines of ####). Writes seeded/<id>/{patch.diff,meta.json}; demo.sh is written separately."""
import json, os, subprocess, sys, tempfile, shutil
bid, prop, needs, what = sys.argv[1:5]
txt = sys.stdin.read()
W = tempfile.mkdtemp(prefix="mkbug")
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(f"cp -a /repo {W}/repo", shell=True)
for block in txt.split("\n####\n"):
    fn, rest = block.strip("\n").split("\n", 1)
    old, new = rest.split("\n====\n") if "\n====\n" in rest else (rest.replace("\n====", ""), "")
    p = f"{W}/repo/{fn.strip()}"
    s = open(p).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = subprocess.check_output(["git", "-C", f"{W}/repo", "diff"], text=True)
# lines removed must be original ones
base = "a868b37"
out = f"/verif/seeded/{bid}"
os.makedirs(out, exist_ok=True)
open(f"{out}/patch.diff", "w").write(d)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(f"{out}/meta.json", "w"), indent=1)
orig = {}
for l in d.splitlines():
    if l.startswith("--- a/"):
        f = l[6:]
        orig = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], capture_output=True, text=True).stdout.splitlines()
    elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
        if l[1:] not in orig:
            print("NOTE: not an original line:", l)
shutil.rmtree(W)
