#!/bin/bash
# nothing to build: the checks translate /repo's sources when they run
cd "$(dirname "$0")" || exit 2
python3-vt -c 'import sys; sys.path.append("/opt/venv/lib/python3.12/site-packages"); import z3, numpy, netCDF4, requests, bs4, packaging' || exit 1
mkdir -p evidence replay
