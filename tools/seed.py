#!/usr/bin/env python3
"""seed.py new ID PROP NEEDS BREAKS < edits     (edits: FILE line, then <<<< old ==== new >>>> blocks)
   seed.py try [ID..]     confirm: applies, builds, stable tests pass, demo 0/nonzero, which checks report it
demo.py must be placed in /verif/seeded/ID/ (demo.sh is generated when missing); it runs with cwd = repo."""
import sys, json, pathlib, subprocess, shutil, os, re
SD = pathlib.Path("/verif/seeded")
PY = "/opt/venv/bin/python"
SCR = "/tmp/seedrepo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    sh(f"rm -rf {SCR} && cp -a /repo {SCR} && git -C {SCR} checkout -q -- .")


def new(id_, prop, needs, breaks):
    fresh()
    text = sys.stdin.read()
    f = None
    for part in re.split(r"^>>>>\n", text, flags=re.M):
        if not part.strip():
            continue
        head, body = part.split("<<<<\n", 1)
        if head.strip():
            f = head.strip()
        old, new_ = body.split("====\n", 1)
        p = pathlib.Path(SCR, f)
        s = p.read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        p.write_text(s.replace(old, new_))
    d = SD / id_
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh(f"git -C {SCR} diff").stdout)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    demo_sh(d)


def demo_sh(d):
    if not (d / "demo.sh").exists():
        (d / "demo.sh").write_text('#!/bin/bash\n# runs with cwd = the repository; exit 0: the property holds\n'
                                   'here=$(cd "$(dirname "$0")" && pwd)\nscratch=$(mktemp -d)\ntrap \'rm -rf "$scratch"\' EXIT\n'
                                   'export SCRATCH="$scratch" XDG_DATA_HOME="$scratch/xdg" PYTHONDONTWRITEBYTECODE=1 TMPDIR="$scratch/tmp" HOME="$scratch/home"\n'
                                   'mkdir -p "$scratch/tmp" "$scratch/home"\n'
                                   'unset PKM_HOME PYTHONPATH\ntimeout 120 /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(d / "demo.sh", 0o755)


def try_(ids):
    man = [c["property"] for c in json.loads(pathlib.Path("/verif/MANIFEST.json").read_text())["checks"]]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for id_ in ids or sorted(p.name for p in SD.iterdir()):
        d = SD / id_
        demo_sh(d)
        meta = json.loads((d / "meta.json").read_text())
        fresh()
        r0 = sh(f"bash {d}/demo.sh", cwd=SCR)
        a = sh(f"git -C {SCR} apply {d}/patch.diff")
        t = sh(f"sed 's#/repo#{SCR}#g' /opt/vp/test.sh > /tmp/test_seed.sh; bash /tmp/test_seed.sh /tmp/seed.json")
        passed = set(json.load(open("/tmp/seed.json"))["passed"])
        r1 = sh(f"bash {d}/demo.sh", cwd=SCR)
        mine = sh(f"PKMLINT_REPO={SCR} /verif/check.sh {meta['property']}", cwd="/verif") if meta["property"] in man else None
        print(id_, meta["property"], "apply", a.returncode, "tests-ok", base <= passed, "demo clean", r0.returncode, "patched", r1.returncode,
              "| check:", "not claimed" if mine is None else mine.returncode)
        if r0.returncode:
            print("   clean:", (r0.stdout + r0.stderr)[-600:])
        if r1.returncode == 0 or "-v" in sys.argv:
            print("   patched:", (r1.stdout + r1.stderr)[-600:])
        if mine is not None and (mine.returncode != 1 or "-v" in sys.argv):
            print("   check:", (mine.stdout + mine.stderr)[-500:])


if sys.argv[1] == "new":
    new(*sys.argv[2:6])
else:
    try_([a for a in sys.argv[2:] if a[0] != "-"])
