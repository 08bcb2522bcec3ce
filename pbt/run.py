#!/usr/bin/env python3
"""Entry point: python3 pbt/run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only CHECK,...] [-v]"""
import os, sys, subprocess, hashlib, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def build_ext():
    """Rebuild the compiled routines in place (git-ignored files) when their sources changed."""
    src = [os.path.join(REPO, "setup.py")] + sorted(glob.glob(os.path.join(REPO, "pacal", "*.pyx")))
    data = b"".join(open(s, "rb").read() for s in src)
    want = hashlib.sha256(data).hexdigest()
    stamp = os.path.join(REPO, "build", "bary_interp.sha256")
    so = glob.glob(os.path.join(REPO, "pacal", "bary_interp.*.so"))
    try:
        have = open(stamp).read().split()[0]
    except Exception:
        have = ""
    if so and have == want:
        return True
    for f in so + [stamp, os.path.join(REPO, "pacal", "bary_interp.c")]:
        if os.path.exists(f):
            os.unlink(f)
    r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "--force"], cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        return False
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    open(stamp, "w").write(want + "  -\n")
    return True


def main():
    if os.environ.get("PBT_CHILD") != "1":
        env = dict(os.environ)
        env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPATH=REPO + ":" + VERIF, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PBT_CHILD="1")
        mpl = "/tmp/pbt_mpl_%d" % os.getpid()
        env["MPLCONFIGDIR"] = mpl
        if not build_ext():
            sys.stderr.write("HARNESS ERROR: the extension module does not build\n")
            return 3
        if sys.argv[1:] == ["--setup"]:
            return 0
        r = subprocess.run([PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=VERIF)
        subprocess.run(["rm", "-rf", mpl])
        rc = r.returncode
        return rc if rc in (0, 1) else 3
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.append(VT_SITE)          # hypothesis (and its dependencies) only: the venv's own packages come first
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        import pacal
    if not os.path.abspath(pacal.__file__).startswith(REPO + "/"):
        sys.stderr.write("HARNESS ERROR: pacal imported from %s\n" % pacal.__file__)
        return 3
    pacal.params.general.parallel = False
    from pbt import core
    if a.replay:
        return core.replay_file(a.replay)
    only = a.only.split(",") if a.only else None
    return core.run_property(a.prop, a.tier, a.seed, only, a.v)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
