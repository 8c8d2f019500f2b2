#!/usr/bin/env python3
"""Entry point of every check: run_check.py <PROPERTY> [--replay FILE] [--scenario NAME] [--jobs N]

Re-executes itself with the interpreter psrpcore is installed for, a fixed hash
seed and no byte code caches, so that the code judged is exactly what
/repo/src/psrpcore contains at this moment.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def main() -> int:
    if os.environ.get("_MC_CHILD") != "1":
        env = dict(os.environ)
        env.update(
            _MC_CHILD="1",
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            # Never read stale caches that lie beside the sources.
            PYTHONPYCACHEPREFIX="/nonexistent/pycache",
            PYTHONPATH="",
            PYTHONNOUSERSITE="1",
        )
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.path.insert(0, HERE)
    from mc import core

    return core.main(sys.argv[1:], HERE, repo)


if __name__ == "__main__":
    sys.exit(main())
