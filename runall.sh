#!/bin/bash
# run.sh <tier> ids...: summary of several checks (development helper)
t=$1; shift
for p in "$@"; do timeout 900 /opt/venv/bin/python /verif/check.py $p --tier $t > /tmp/out.$p 2>&1; r=$?; echo "$r $(tail -1 /tmp/out.$p | cut -c1-200)"; grep -a 'UNSUPP\|ERROR\|not repro\|mismatch\|^VIOL' /tmp/out.$p | cut -c1-250 | head -6; done
