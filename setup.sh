#!/bin/bash
# compiles the TLC operator overrides (java/) into .build/
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "harness"); import vlib; print(vlib.java_classes())'
