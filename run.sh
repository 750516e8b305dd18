#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" && exec /opt/venv/bin/python harness/check.py "$@"
