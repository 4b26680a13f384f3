#!/bin/bash
# Checks that the tools are there and builds the harnesses once (each check rebuilds what it needs).
set -e
cd "$(dirname "$0")"
python3 -m lib.build airdump pubdump
