#!/bin/bash
# usage: check.sh <PROPERTY> quick|thorough
cd "$(dirname "$0")" || exit 3
PYTHONPATH="$PWD" exec /opt/venv/bin/python -m symx.run "$1" "$2"
