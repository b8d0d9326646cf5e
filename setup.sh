#!/bin/bash
# Offline sanity build: compiles every check once against /repo (also warms the build cache).
cd "$(dirname "$0")" || exit 1
exec python3 tools/warm.py
