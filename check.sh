#!/bin/bash
# check.sh PROPERTY TIER
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
analyzer/build.sh || exit 4
exec python3 -m vf.check "$1" "$2"
