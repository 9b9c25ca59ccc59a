#!/bin/bash
# Regenerates properties.jsonl, MANIFEST.json and DESIGN.md
export PYTHONDONTWRITEBYTECODE=1
cd "$(dirname "$0")/.." && python3 tools/mkprops.py && python3 tools/mkmanifest.py && python3 tools/mkdesign.py
