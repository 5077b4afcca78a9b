"""Process set-up shared by every entry point: interpreter, hash seed, import paths."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZKV_REPO", "/repo")
PY = "/opt/venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def child_env(hashseed="0"):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = hashseed
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = HERE
    env.pop("PYTHONSTARTUP", None)
    return env


def command(*args):
    return [PY, "-B", "-W", "ignore", *args]


def ensure_interpreter(argv):
    """Re-exec under the repository's interpreter with a fixed hash seed."""
    if os.path.realpath(sys.executable) != os.path.realpath(PY) or not sys.prefix.startswith(
        "/opt/venv"
    ) or os.environ.get("PYTHONHASHSEED") != "0" or not sys.dont_write_bytecode:
        os.execve(PY, command(*argv), child_env())


def import_paths(hypothesis=True):
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if hypothesis and HYP not in sys.path:
        sys.path.append(HYP)
    import zksk

    assert os.path.realpath(zksk.__file__).startswith(os.path.realpath(REPO) + "/"), zksk.__file__
