#!/usr/bin/env python3
"""Driver: run.py <property id> [--tier quick|thorough] [--seed N] [--only LABEL]

Runs the monitor of one property against the code in /repo (or $VERIF_REPO).
Exit 0: held on everything observed; 1: violation (with a VIOLATION line);
2: inconclusive (the monitor could not do its work).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ, VERIF_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               LANG='C.UTF-8', TQDM_DISABLE='1')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', os.path.join(HERE, 'run.py')] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from lib import core  # noqa: E402

if __name__ == '__main__':
    core.drive(sys.argv[1:])
