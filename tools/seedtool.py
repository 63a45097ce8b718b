"""Development tool for planted bugs.  seedtool.py new ID | verify ID... | catch ID [tier]
new:    take the diff of the scratch copy /tmp/seedwork/repo into seeded/ID/patch.diff
verify: demo passes unpatched, fails patched; stable tests pass patched
catch:  run the property's check against a patched scratch copy"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def copy_repo(dst):
    sh(f"rm -rf {dst}; mkdir -p {os.path.dirname(dst)}; cp -a {os.environ.get("SEEDSRC", "/repo")} {dst}")


def tests(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = sh(f". /opt/vp/env.sh; export PYTHONPATH={repo}/ros_bt_py:$PYTHONPATH; cd {repo}/ros_bt_py && /opt/venv/bin/python -m pytest -q "
           f"-p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=tests/integration -o junit_family=xunit2 "
           f"--junitxml={repo}/../x.xml tests", executable="/bin/bash")
    import xml.etree.ElementTree as E
    ok = set()
    for t in E.parse(f"{repo}/../x.xml").iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in t):
            ok.add(f"{t.get('classname')}::{t.get('name')}")
    miss = [b for b in base if b not in ok]
    return miss


def demo(i, repo, d):
    # laid elsewhere, without patch and meta
    x = f"{d}/demo"
    sh(f"rm -rf {x}; cp -a {S}/{i} {x}; rm -f {x}/*.diff {x}/meta.json")
    r = sh(f"cd {repo} && bash {x}/demo.sh", executable="/bin/bash", timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def verify(i):
    d = f"/tmp/seedv/{i}"
    repo = d + "/repo"
    copy_repo(repo)
    try:
        a, out = demo(i, repo, d)
        if a != 0:
            return f"{i}: demo fails on the unchanged tree: {out}"
        r = sh(f"git -C {repo} apply {S}/{i}/patch.diff")
        if r.returncode:
            return f"{i}: patch does not apply {r.stderr}"
        b, out = demo(i, repo, d)
        if b == 0:
            return f"{i}: demo passes with the patch: {out}"
        miss = tests(repo)
        if miss:
            return f"{i}: tests fail: {miss}"
        # lines of the original repository?
        r = sh(f"cd {repo} && git diff -U0 | grep '^-[^-]' | cut -c2-")
        old = set(sh("git -C /repo grep -h '' fd2ceac -- '*.py'").stdout.splitlines())
        hit = [x for x in r.stdout.splitlines() if x in old and x.strip()]
        return f"{i}: ok ({b}) {'' if hit else 'NO ORIGINAL LINE REMOVED'} :: {out.strip().splitlines()[-1][:150] if out.strip() else ''}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(i, extra=()):
    d = f"/tmp/seedc/{i}"
    repo = d + "/repo"
    copy_repo(repo)
    try:
        r = sh(f"git -C {repo} apply {S}/{i}/patch.diff")
        if r.returncode:
            return f"{i}: patch does not apply {r.stderr}"
        p = json.load(open(f"{S}/{i}/meta.json"))["property"]
        r = sh(f"cd {V} && BTSIM_REPO={repo} ./check.sh {p} quick {' '.join(extra)}", timeout=1500)
        lines = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "violation", p + ":", "HARNESS"))]
        return f"{i}: {'CAUGHT' if r.returncode == 1 else 'MISSED rc=' + str(r.returncode)} {' | '.join(x[:220] for x in lines[-3:])} {r.stderr[-300:] if r.returncode not in (0, 1) else ''}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    extra = [x for x in ids if x.startswith("--")]
    ids = [x for x in ids if not x.startswith("--")] or sorted(os.listdir(S))
    if cmd == "new":
        i = ids[0]
        os.makedirs(f"{S}/{i}", exist_ok=True)
        r = sh("git -C /tmp/seedwork/repo diff")
        open(f"{S}/{i}/patch.diff", "w").write(r.stdout)
        sh("git -C /tmp/seedwork/repo checkout -- .")
        sh(f"mkdir -p {S}/{i}/sim/btsim; cp {V}/btsim/{{__init__,kernel,ros,disk,world,testnodes,tree,stubs,base,envs,editmodel,editgen}}.py "
           f"{S}/{i}/sim/btsim/; cp {V}/tools/demolib.py {S}/{i}/; cp {V}/tools/demo.sh.tmpl {S}/{i}/demo.sh", executable="/bin/bash")
        print(len(r.stdout.splitlines()), "lines")
    for i in ids if cmd in ("verify", "catch") else ():
        print(verify(i) if cmd == "verify" else catch(i, extra), flush=True)
