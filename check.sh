#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3 lib/driver.py "$@"
