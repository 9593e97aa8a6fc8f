#!/bin/bash
# Nothing needs building: the harness is pure Python and imports the package
# straight from /repo. Just make sure the interpreter and the library are there.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$HERE/evidence"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c '
import sys; sys.path.insert(0, "/repo")
import ndspy
print("python", sys.version.split()[0], "ndspy", ndspy.VERSION, "from", ndspy.__file__)'
