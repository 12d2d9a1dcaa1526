#!/bin/bash
# nothing to build: the checks interpret the Python sources in /repo directly; verify that the interpreter and its libraries are there
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "import numpy, cbor2, lxml.etree"
