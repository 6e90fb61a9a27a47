#!/bin/bash
# Nothing to build (pure Python): check that the seams install and the code under test imports.
. "$(dirname "$0")/env.sh"
mkdir -p evidence
exec /opt/venv/bin/python - <<'P'
import os, sys
sys.path[:0] = [os.getcwd(), os.environ['VERIF_REPO']]
from sim import world
world.install()
print('modules missing:', world.load())
P
