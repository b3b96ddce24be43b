#!/bin/bash
# tools/rt.sh PID [tier] [case]
cd /verif; VERIF_TIER=${2:-quick} PYTHONPATH=/verif timeout 900 python3-vt -B -m rt.run $1 /tmp/x_$1.json $3 2>/tmp/err_$1; python3-vt tools/show.py /tmp/x_$1.json ${N:-350} | head -c ${B:-6000}; tail -2 /tmp/err_$1
