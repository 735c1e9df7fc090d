#!/opt/venv/bin/python
"""check.py <property> : decide one property on /repo's current tree.  See DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'


def main():
    if os.environ.get('VERIF_CHECK_ENV') != '1':
        env = dict(os.environ, VERIF_CHECK_ENV='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', NUMEXPR_MAX_THREADS='1')
        env.pop('PYTHONPATH', None)
        os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)]
                  + sys.argv[1:], env)
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    from pyvc import runner
    sys.exit(runner.main(sys.argv[1:], HERE, REPO))


if __name__ == '__main__':
    main()
