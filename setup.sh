#!/bin/sh
# Prebuilds what the checks need (each check rebuilds what changed).
set -e
cd "$(dirname "$0")"
exec python3 -B mc/setup.py
