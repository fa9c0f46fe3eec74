#!/bin/bash
# check.sh <PROPERTY> <quick|thorough>
cd "$(dirname "$0")" || exit 2
exec python3 run.py "$1" "$2"
