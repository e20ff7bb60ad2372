#!/opt/venv/bin/python
"""check.py C01 [--replay FILE] [--case N] [--cases N] [--tier T] [--seed S]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    par = argparse.ArgumentParser()
    par.add_argument('pid')
    par.add_argument('--replay')
    par.add_argument('--case', type=int)
    par.add_argument('--cases', type=int)
    par.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    par.add_argument('--seed', type=int,
                     default=int(os.environ.get('VERIF_SEED', '1') or 1))
    args = par.parse_args()
    # hash order and byte code must not depend on the caller
    if os.environ.get('PYTHONHASHSEED') != '0' or \
            os.environ.get('VERIF_CHILD') != '1':
        env = dict(os.environ, PYTHONHASHSEED='0', VERIF_CHILD='1',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='')
        os.execve(PY, [PY, '-B', '-W', 'ignore', os.path.abspath(__file__)] +
                  sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from vlib import core
    sys.exit(core.run(args.pid, args.tier, args.seed, args.replay, args.case,
                      args.cases))


if __name__ == '__main__':
    main()
