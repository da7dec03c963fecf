#!/bin/bash
# one.sh REPLAY: runs one input through the instrumented build and compares every branch with its formula
cd "$(dirname "$0")/.."
E=$PWD
env LD_PRELOAD=$E/build/libk2symrt.so PYTHONPATH=/repo/k2/python:$E/build/sym/lib:$E/engine:$E/checks PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 K2_DISABLE_CHECKS= /opt/venv/bin/python engine/one.py "$@"
