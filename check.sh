#!/bin/bash
# usage: check.sh <property> quick|thorough
cd "$(dirname "$0")" && exec python3 lib/run.py "$@"
