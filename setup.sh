#!/bin/sh
# pre-build the Cython extensions of the current tree into the cache
cd "$(dirname "$0")" && exec /opt/venv/bin/python -m pyvc.build
