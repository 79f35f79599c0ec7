#!/bin/bash
# Offline check that the toolchain the simulator needs is present; every check
# builds the interposer itself into a scratch directory.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -O2 -fPIC -shared -fno-builtin -U_FORTIFY_SOURCE -w -o "$d/shim.so" sim/shim.c -ldl -lpthread
/opt/venv/bin/python -B -c "import torch, numpy, scipy, soundfile, matplotlib; print('setup ok')"
