#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] ..."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_CHILD") != "1":
    # Under the interpreter of the repository's environment, without bytecode
    # caches: what runs is /repo's current source.
    env = dict(os.environ, VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(HERE, "work", "no-cache"))
    env.setdefault("PYTHONHASHSEED", "0")
    for k in ("PYTHONPATH", "PYTHONWARNINGS", "PYTHONSTARTUP"):
        env.pop(k, None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.join(HERE, "sim"))
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import engine  # noqa: E402
import props  # noqa: E402

if sys.argv[1:] == ["--selftest"]:
    sys.exit(engine.selftest(props.CHECKS))
if len(sys.argv) < 2 or sys.argv[1] not in props.CHECKS:
    sys.exit("usage: check.py %s ..." % "|".join(props.CHECKS))
sys.exit(engine.main(props.CHECKS[sys.argv[1]], sys.argv[2:]))
