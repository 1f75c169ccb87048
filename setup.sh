#!/bin/bash
# Builds the MIR extractor and extracts /repo once, so that checks only re-extract what changed.
set -e
cd "$(dirname "$0")"
python3 rxv/build.py --setup dev
