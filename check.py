'''check.py PROPERTY [quick|thorough]: simulate and decide one property.'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

from sim import runner      # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rc = runner.check(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    sys.stdout.flush()
    os._exit(rc)
