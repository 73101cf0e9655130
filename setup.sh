#!/bin/bash
# builds the MIR exporter and warms the dependency build used by every check
set -e
cd "$(dirname "$0")"
python3 sa/export.py
