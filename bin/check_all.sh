#!/bin/bash
# development: run several checks, print the tail
for p in "$@"; do echo "== $p"; python3 /verif/bin/check.py $p 2>&1 | cut -c1-${W:-700} | tail -${T:-8}; done
