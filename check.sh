#!/bin/bash
# usage: check.sh <property id>
cd "$(dirname "$0")"
exec python3 sa/check.py "$1" ${2:-}
