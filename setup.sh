#!/bin/bash
# Builds the framework from the committed files; offline.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt py/setup.py
