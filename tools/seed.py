"""seed.py ID PROP [--notests]: confirm seeded/ID/ (edits.json: [[file, old, new, nth], ...], demo.sh) in a scratch copy; writes patch.diff."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(H, "seeded", sid)
w = f"/tmp/sd_{sid}"
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", w])
subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
if "--edits" in sys.argv or os.path.exists(f"/tmp/edits_{sid}.json"):
    for f, old, new, *n in json.load(open(f"/tmp/edits_{sid}.json")):
        p = os.path.join(w, f)
        s = open(p).read()
        i = -1
        for _ in range(n[0] if n else 1):
            i = s.index(old, i + 1)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
# lines removed must be original lines
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
def demo():
    t = f"/tmp/sdd_{sid}"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(t, f))
    r = subprocess.run(["bash", f"{t}/demo.sh"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    shutil.rmtree(t)
    return r.returncode, r.stdout[-400:]
a = demo()
subprocess.check_call(["git", "-C", w, "apply", os.path.join(d, "patch.diff")])
b = demo()
print(sid, "demo clean", a[0], a[1] if a[0] else "", "| patched", b[0], b[1].strip().splitlines()[-1:] )
if "--notests" not in sys.argv and a[0] == 0 and b[0] != 0:
    s = open("/opt/vp/test.sh").read().replace("/repo", w)
    open(f"{w}/.t.sh", "w").write(s)
    subprocess.run(["bash", f"{w}/.t.sh", f"/tmp/sdr_{sid}.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = json.load(open(f"/tmp/sdr_{sid}.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(r.get("passed", []))
    miss = [x for x in stable if x not in passed]
    print(sid, "tests: missing", len(miss), miss[:3])
shutil.rmtree(w, ignore_errors=True)
