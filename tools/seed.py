"""plant a bug: tools/seed.py ID PROPERTY FILE 'old' 'new' 'needs' 'breaks'  (demo.sh written separately)
Makes the patch from a scratch copy of /repo; verification is done by tools/seedcheck.sh."""
import sys, os, subprocess, json, shutil, tempfile
ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS = sys.argv[1:8]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", ID); os.makedirs(d, exist_ok=True)
src = open(os.path.join("/repo", FILE)).read()
assert src.count(OLD) == 1, "old text occurs %d times" % src.count(OLD)
t = tempfile.mkdtemp()
for x, s in (("a", src), ("b", src.replace(OLD, NEW))):
    os.makedirs(os.path.join(t, x, os.path.dirname(FILE))); open(os.path.join(t, x, FILE), "w").write(s)
p = subprocess.run(["diff", "-u", os.path.join("a", FILE), os.path.join("b", FILE)], cwd=t, capture_output=True, text=True).stdout
lines = p.splitlines(True); lines[0] = "--- a/%s\n" % FILE; lines[1] = "+++ b/%s\n" % FILE
mode = "a" if os.environ.get("SEED_APPEND") else "w"
open(os.path.join(d, "patch.diff"), mode).write("".join(lines)); shutil.rmtree(t)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(os.path.join(d, "meta.json"), "w"), indent=1)
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
print("ok", ID)
