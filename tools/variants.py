"""development aid: runs a check against edited copies of the repository.
usage: variants.py PROP [name-substring]     (variants live in tools/variants.d/<PROP>.py as VARIANTS list)
each variant: (name, expect, [(file, old, new), ...])   expect: fire / quiet;  file relative to pkm/src/pkm"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor

HERE = Path(__file__).resolve().parent
REPO = Path(__import__("os").environ.get("VARREPO", "/repo"))


def run(prop, v):
    name, expect, edits = v
    d = Path(tempfile.mkdtemp(prefix="pkmvar."))
    try:
        r = d / "repo"
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns(".git", "dist", "__pycache__", "*.whl"))
        for f, old, new in edits:
            p = r / "pkm/src/pkm" / f
            p = p if p.exists() else r / f
            s = p.read_text()
            if old == "":
                s = s + new
            else:
                if s.count(old) < 1:
                    return name, "BAD-EDIT", f"{f}: text not found: {old[:60]!r}"
                s = s.replace(old, new, 1)
            p.write_text(s)
            try:
                compile(s, str(p), "exec")
            except SyntaxError as e:
                return name, "BAD-EDIT", str(e)
        v2 = d / "verif"
        shutil.copytree(HERE.parent / "pkmlint", v2 / "pkmlint", ignore=shutil.ignore_patterns("__pycache__"))
        for x in ("known_findings.txt",):
            if (HERE.parent / x).exists():
                shutil.copy(HERE.parent / x, v2 / x)
        e = dict(os.environ, PKMLINT_REPO=str(r))
        c = subprocess.run([sys.executable, "-B", "-m", "pkmlint.check", prop], cwd=v2, env=e, capture_output=True, text=True)
        got = {0: "quiet", 1: "fire"}.get(c.returncode, "ERROR")
        return name, ("ok" if got == expect else "MISMATCH") + f" got={got} expect={expect}", \
            "" if got == expect and "-v" not in sys.argv else "\n".join((c.stdout + c.stderr).strip().splitlines()[-12:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    prop = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else ""
    spec = importlib.util.spec_from_file_location("v", HERE / "variants.d" / f"{prop}.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    vs = [v for v in m.VARIANTS if sub in v[0]]
    with ThreadPoolExecutor(7) as ex:
        for n, r, t in ex.map(lambda v: run(prop, v), vs):
            print(f"{r:38s} {n}")
            if t:
                print("      " + t.replace("\n", "\n      "))


main()
