#!/bin/bash
# tools/t.sh MODULE [Contracts...]: run contracts, terse output
cd /verif && PYTHONHASHSEED=0 PYTHONPATH=/verif:/repo timeout ${T:-900} python3-vt -B tools/try.py "$@" 2>/tmp/t.err | grep -v '^  File\|^    \|^in_\|^Traceback\|^\.\.\.' | cut -c1-${W:-400}; grep -v '^  ' /tmp/t.err | tail -3
