#!/usr/bin/env python3
"""Behaviour-preserving edits: the proofs have to stay quiet on them (development aid, no check reads this).

  run.py [ids...]   applies each edit of cases.py to a scratch copy of /repo, runs its tests, then vx + Verus
"""
import sys, os, subprocess, shutil, json, re, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from cases import CASES
WT = os.environ.get("REFWT", "/tmp/refwt")
os.environ["YAMD_REPO"] = WT
sys.path.insert(0, os.path.join(HERE, "../../checks"))
import check
cfg = json.load(open(os.path.join(HERE, "../../checks/props.json")))
UNITS = {"lexer": ["C02", "C03", "C04"], "op": ["C05", "C06", "C09"], "tree": ["C11", "C12"], "content": ["C10"], "display": ["C13"], "types": ["C15"]}
def setup():
    if os.path.exists(WT):
        subprocess.check_call(["rm", "-rf", WT])
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", WT])
def main():
    ids = [a for i, a in enumerate(sys.argv[1:]) if not a.startswith("-") and not sys.argv[i].startswith("--")]
    if "--from" in sys.argv: ids = [c[0] for c in CASES]; ids = ids[ids.index(sys.argv[sys.argv.index("--from") + 1]):]
    if "--part" in sys.argv: k, n = map(int, sys.argv[sys.argv.index("--part") + 1].split("/")); ids = (ids or [c[0] for c in CASES])[k::n]
    setup(); check.build_vx()
    os.makedirs(os.path.join(check.BUILD, "tmp"), exist_ok=True)
    tot = {}
    for c in CASES:
        id, groups, edits = c
        if ids and id not in ids and not any(id.startswith(x) for x in ids if x.endswith("-") or x.endswith("*")): continue
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."]); subprocess.check_call(["git", "-C", WT, "clean", "-fdq", "src"])
        bad = None
        for f, old, new in edits:
            p = os.path.join(WT, f)
            if old is None:
                open(p, "w").write(new); continue
            s = open(p).read()
            if old not in s: bad = "edit does not apply: %s %r" % (f, old[:60]); break
            s = s.replace(old, new) if old.startswith("\0") else s.replace(old, new, 1)
            open(p, "w").write(s)
        if bad: print(id, bad); continue
        r = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=WT, env=dict(os.environ, CARGO_TARGET_DIR=WT + "-target"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: print(id, "TESTS FAIL", r.stdout[-1500:]); continue
        todo = sorted({(u, t) for g in groups for p in UNITS[g] for u, t in cfg[p]["units"]})
        with ThreadPoolExecutor(3) as ex:
            vs = list(ex.map(lambda ut: check.verify(ut[0], ut[1], "quick"), todo))
        st = [v["status"] for v in vs]
        print("%-28s %s" % (id, "ok" if all(s == "proved" for s in st) else " ".join("%s[%s]=%s" % (v["unit"], v["tags"], v["status"]) for v in vs if v["status"] != "proved")))
        for v in vs:
            if v["status"] != "proved":
                for n in v["notes"][:2]: print("      note", n[:400])
                for f in v["failures"][:3]: print("      ", f["function"], "|", f["message"][:60], "|", (f["obligation"] or "")[:150])
        sys.stdout.flush()
main()
