'''replay.py FILE [-q]: run the execution of a replay file again; exit 0 if it is reproduced.'''
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

from sim import runner      # noqa: E402

if __name__ == '__main__':
    rc = runner.replay(sys.argv[1], '-q' in sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
