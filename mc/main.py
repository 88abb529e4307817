import importlib
import os
import sys
import traceback
from mc import core
try:
    # the environment that the check needs
    env = getattr(importlib.import_module("mc." + sys.argv[1].lower()), "ENV", {})
    if any(os.environ.get(k) != v for k, v in env.items()):
        os.environ.update(env)
        os.execv(sys.executable, [sys.executable, "-m", "mc.main"] + sys.argv[1:])
    rc = core.main(sys.argv)
except BaseException:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
