#!/bin/bash
# Verifies that the tools are present and that every specification parses.
cd "$(dirname "$0")" && exec python3 lib/run.py setup quick
