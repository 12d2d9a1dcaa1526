#!/bin/bash
# bash /verif/check.sh <property id> [quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from mc import core; sys.exit(core.main(sys.argv[1:]))' "$@"
