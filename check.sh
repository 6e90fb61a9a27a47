#!/bin/bash
# check.sh PROPERTY [quick|thorough]
. "$(dirname "$0")/env.sh"
exec /opt/venv/bin/python check.py "$@"
