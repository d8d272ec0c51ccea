#!/bin/bash
# Runs demo.py (beside this file) against the C library and Python package built from the current tree.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/rustfst-python timeout 60 /opt/vp/venv/bin/python "$D/demo.py"
