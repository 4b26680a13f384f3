#!/bin/bash
# Exit 0 when the dishonest rows of demo.rs are rejected by the real constraints, nonzero otherwise.
exec python3 "$(cd "$(dirname "$0")" && pwd)/mk.py"
