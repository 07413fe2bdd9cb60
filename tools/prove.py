"""Run the proof part of one property: python3-vt tools/prove.py C15 [-v]"""
import sys, os, json, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()


def run():
    from pyvc import verify
    prop = sys.argv[1]
    repo = os.environ.get("VERIF_REPO", "/repo")
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    budget = 300 if tier == "quick" else 700
    ck = verify.Check(prop, repo, tier, budget)
    mod = importlib.import_module("contracts." + prop)
    try:
        mod.verify(ck)
    except Exception as e:
        if os.environ.get("PYVC_DEBUG"):
            raise
        ck.obs.append(verify.Ob("verify", "", "error", "", f"{type(e).__name__}: {e}"))
    s = ck.summary()
    out = [a for a in sys.argv if a.startswith("--out=")]
    if out:
        json.dump(s, open(out[0][6:], "w"), indent=1)
    else:
        if "-v" in sys.argv:
            for o in ck.obs:
                print(o.status, o.how, o.name, o.detail[:300], round(o.secs, 2))
        for o in s["failed"]:
            print("FAILED", o["status"], o["name"], "|", o["function"], "|", o["detail"][:1200])
        print({k: v for k, v in s.items() if k != "failed"})


main()
