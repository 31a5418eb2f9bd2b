"""Check that everything the checks need is here (setup_cmd)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run  # noqa: E402

run.setup_paths()
import hypothesis  # noqa: E402

print("hypothesis %s; code under test from %s" % (hypothesis.__version__, run.core.REPO))
