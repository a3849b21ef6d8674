#!/bin/bash
# builds the extractor and the executable contracts into /verif/.build (checks rebuild what changed)
cd "$(dirname "$0")" && exec python3 check.py --setup
