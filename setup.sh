#!/bin/bash
# Builds every monitor once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
exec python3 tools/setup.py
