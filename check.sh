#!/bin/sh
# usage: check.sh <property>     static analysis of /repo/src, nothing is executed from it
cd "$(dirname "$0")" || exit 3
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3 -m sa.main "$1"
