"""Self-test of the checks on broken and behaviour-preserving variants.

usage: python3 tools/mut.py [filter]      (reads tools/mutants.py; scratch copy under /tmp)
Each variant replaces text in a copy of /repo's sources and runs the property's check on
the copy; it must be reported ("bad") or stay quiet ("quiet").
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from mutants import M


def one(m):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/dattri", d + "/dattri")
        for x in ("README.md", "pyproject.toml"):
            if os.path.exists("/repo/" + x):
                shutil.copy("/repo/" + x, d)
        if os.path.isdir("/repo/docs"):
            shutil.copytree("/repo/docs", d + "/docs")
        for f, old, new, *nth in m["edits"]:
            p = f"{d}/{f}"
            s = open(p).read()
            n = nth[0] if nth else m.get("nth", 0)
            parts = s.split(old)
            if len(parts) < 2:
                return m, "STALE", f"{f}: text not found: {old[:60]!r}"
            if m.get("all"):
                s = new.join(parts)
            else:
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return m, "SYNTAX", str(e)
            open(p, "w").write(s)
        out = []
        for pid in m["props"]:
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/evidence")
            r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=HERE, env=env, capture_output=True, text=True)
            out.append((pid, r.returncode, [l for l in r.stdout.splitlines() if "[" in l or "BROKEN" in l][:3], r.stderr[-300:]))
        return m, out, ""
    finally:
        shutil.rmtree(d)


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    ms = [m for m in M if pat in m["id"] or pat in m["props"]]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for m, out, why in ex.map(one, ms):
            if isinstance(out, str):
                print(out, m["id"], why); bad += 1
                continue
            want = 1 if m["expect"] == "bad" else 0
            hit = any(rc == 1 for _, rc, _, _ in out)
            err = [o for o in out if o[1] not in (0, 1)]
            ok = (hit if want else not hit) and not err
            if not ok:
                bad += 1
            print("ok  " if ok else "FAIL", m["id"], m["expect"], [(p, rc) for p, rc, _, _ in out])
            if not ok or "-v" in sys.argv:
                for p, rc, ls, er in out:
                    for l in ls:
                        print("       ", l[:220])
                    if rc not in (0, 1):
                        print("       ", er)
    print(len(ms), "variants,", bad, "wrong")


if __name__ == "__main__":
    main()
