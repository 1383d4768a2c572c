#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--case NAME] [--replay FILE] [--debug]"""
import os
import sys
for k, v in dict(PYTHONDONTWRITEBYTECODE='1', TZ='UTC', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR='/tmp/symx_mpl').items():
    os.environ.setdefault(k, v)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(10000)

if __name__ == '__main__':
    if '--worker' in sys.argv:
        from symx.explore import worker_main
        worker_main()
    elif '--selftest' in sys.argv:
        from symx.selftest import main
        sys.exit(main())
    else:
        from symx.main import main
        sys.exit(main(sys.argv[1:]))
