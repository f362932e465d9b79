"""Creates and confirms a planted bug: python3 tools/seed.py <id> <property>   (spec in tools/seeds.py)

The spec gives the edits and the demonstration; this writes seeded/<id>/ after checking, in a scratch copy,
that the demo passes on the unchanged tree and fails on the changed one. With --tests also runs the stable tests.
"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from seeds import SEEDS, PRELUDE

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def one(s, tests):
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        out = f"{H}/seeded/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.py", "w").write(PRELUDE + s["demo"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# cwd is the repository root\nexec env PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>/dev/null\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = sh(f"bash {out}/demo.sh", r)
        for f, old, new, *n in s["edits"]:
            p = f"{r}/{f}"
            t = open(p).read()
            parts = t.split(old)
            k = n[0] if n else 0
            assert len(parts) >= 2 + k, (f, old)
            open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = sh("git diff", r).stdout
        open(out + "/patch.diff", "w").write(diff)
        b = sh(f"bash {out}/demo.sh", r)
        msg = f"{s['id']}: unchanged rc={a.returncode} changed rc={b.returncode}"
        if a.returncode or not b.returncode:
            msg += " BAD " + a.stdout[-500:] + b.stdout[-500:]
            msg += sh(f'PYTHONPATH="$PWD" /opt/venv/bin/python {out}/demo.py 2>&1 | tail -5', r if not b.returncode else "/repo").stdout
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + "/ev")
        c = sh(f"python3 -m sa.run {s['property']}", H, env=env)
        msg += f" | check rc={c.returncode}"
        if tests:
            env = dict(os.environ, PYTHONPATH=f"{r}:/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                       HF_HUB_OFFLINE="1", HF_DATASETS_OFFLINE="1", TRANSFORMERS_OFFLINE="1", CUDA_VISIBLE_DEVICES="", TMPDIR=d, GLIBC_TUNABLES="glibc.malloc.hugetlb=1", MALLOC_MMAP_MAX_="0",
                       MALLOC_TRIM_THRESHOLD_="20000000000", MALLOC_TOP_PAD_="67108864")
            sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_isolate -m 'not gpu' -n 8 --dist load --timeout=300 "
               "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=" + d + "/j.xml test "
               "--ignore=test/dattri/algorithm/test_influence_function.py --ignore=test/dattri/algorithm/test_influence_function_dict.py",
               r, env=env)
            sh(f"python3 /opt/vp/results.py {d}/o.json junit:{d}/j.xml", r)
            o = json.load(open(d + "/o.json"))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            failed = sorted(stable - set(o.get("passed", [])))
            msg += f" | stable tests failing: {failed[:4]}" + ("" if failed else " none")
        return msg
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    tests = "--tests" in sys.argv
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1 if tests else 4) as ex:
        for m in ex.map(lambda s: one(s, tests), [s for s in SEEDS if pat in s["id"]]):
            print(m, flush=True)
