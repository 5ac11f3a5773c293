"""Entry point of every check.

    run.py C01                  run the check for property C01
    run.py C01 --replay FILE    run exactly the case stored in FILE
    run.py --all                run every check (used by hand)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough),
VF_SHARDS (default 8). Only used by hand: VF_REPO (default /repo), VF_SCALE
(factor for the number of cases), VF_SHRINK (seconds spent on shrinking).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_WANT = {
    'PYTHONHASHSEED': '0',
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1',
    # stale byte code of /repo must never hide a change
    'PYTHONPYCACHEPREFIX': '/nonexistent',
}
if any(os.environ.get(k) != v for k, v in _WANT.items()):
    os.environ.update(_WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, HERE)
from vf import engine  # noqa: E402

if __name__ == '__main__':
    sys.exit(engine.main(sys.argv[1:]))
