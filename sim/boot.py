"""Stage 0: build the OS shim from source, then re-exec the interpreter with
the shim preloaded and a fixed environment."""
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def build_shim():
    src = os.path.join(HERE, "simshim.c")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    outdir = os.path.join(os.path.dirname(HERE), ".build")
    os.makedirs(outdir, exist_ok=True)
    so = os.path.join(outdir, "simshim-%s.so" % tag)
    if not os.path.exists(so):
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.check_call(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"])
        os.replace(tmp, so)
    return so


def environment(so, extra=None):
    env = {"HOME": "/root", "LANG": "C.UTF-8", "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"),
           "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.environ.get("MPLCONFIGDIR", "/opt/vp/mpl"),
           "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "TZ": "UTC",
           "HDF5_USE_FILE_LOCKING": "TRUE", "LD_PRELOAD": so,
           "PYTHONWARNINGS": "ignore", "SIM_STAGE": "1"}
    for k in ("VERIF_SEED", "VERIF_TIER", "SIM_WORKERS", "SIM_RUNS", "SIM_REPO", "SIM_STDERR", "SIM_DIGESTS", "SIM_NOTES", "TMPDIR"):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(extra or {})
    return env


if __name__ == "__main__":
    try:
        so = build_shim()
    except Exception as e:
        print("HARNESS-ERROR: cannot build the shim: %s" % e)
        sys.exit(3)
    os.execve("/opt/venv/bin/python",
              ["/opt/venv/bin/python", os.path.join(HERE, "main.py")] + sys.argv[1:],
              environment(so))
