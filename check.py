#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, os.environ.get('METKU_REPO', '/repo'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier')
    ap.add_argument('--seed')
    a = ap.parse_args()
    import common
    import warnings
    warnings.simplefilter('ignore')
    chk = common.Check(a.property, a.tier, a.seed)
    try:
        mod = importlib.import_module(a.property.lower())
    except common.MachineryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/metku/' in f.filename for f in tb):
            chk.violation('import', {'what': f'cannot import the code under test: {type(e).__name__}: {e}',
                                     'trace': traceback.format_exc()[-2000:]})
            return chk.finish()
        raise
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')   # the code under test prints
    try:
        mod.run(chk)
    except common.MachineryError:
        raise
    except Exception as e:
        # raised inside the code under test where the harness expected an answer, or while
        # reading an answer of a form no specified behaviour has: an observation either way
        # (TLC and file problems are MachineryErrors)
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (OSError, MemoryError)) and not any('/metku/' in f.filename for f in tb):
            raise
        chk.violation(f'run/{type(e).__name__}', {'what': f'{type(e).__name__}: {e}',
                                                  'trace': traceback.format_exc()[-2000:]})
    finally:
        sys.stdout = out
    return chk.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
