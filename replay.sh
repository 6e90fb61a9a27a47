#!/bin/bash
# replay.sh FILE: run the execution recorded in a replay file again
f=$(realpath "$1"); shift
. "$(dirname "$0")/env.sh"
exec /opt/venv/bin/python replay.py "$f" "$@"
