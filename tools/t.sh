#!/bin/bash
# t.sh PROP...: quick tier, short output
cd /verif; for p in "$@"; do timeout 800 python3 run.py $p 2>&1 | cut -c1-600 | tail -${N:-14}; done
