"""Imports the library and every check."""
import glob
import importlib
import os

from zkv import boot

boot.import_paths()
import hypothesis  # noqa: E402,F401
import zksk  # noqa: E402

names = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(boot.HERE, "zkv", "props", "c*.py")))
for n in names:
    importlib.import_module("zkv.props." + n)
print("%d checks, library %s, hypothesis %s" % (len(names), os.path.dirname(zksk.__file__), hypothesis.__version__))
