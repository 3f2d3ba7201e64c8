#!/bin/bash
# Builds the symbolic execution engine from the committed sources (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
make -s -C engine -j8
