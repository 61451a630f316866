#!/bin/sh
# builds the framework: circom from /repo's working tree, and the C++ runtime objects the C++ checks link with
set -e
cd "$(dirname "$0")"
exec python3 mc/setup.py
