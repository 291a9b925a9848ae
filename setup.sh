#!/bin/sh
# Builds the monitors from the committed files (the checks rebuild what has changed).
cd "$(dirname "$0")" && python3 run_check.py --build
