#!/bin/bash
# ./check.sh <property id>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -B mc/main.py "$@"
