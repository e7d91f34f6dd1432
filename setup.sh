#!/bin/bash
# Builds the C++ fact extractor (build/, ignored by git).
set -e
cd "$(dirname "$0")"
python3 -B -c 'from sa.cxx import front; print(front.ensure_extractor("/tmp"))'
