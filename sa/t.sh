#!/bin/bash
cd /verif/sa; (cd driver && cargo +nightly build --release --offline 2>&1 | grep -E "^error" -A9)
rm -f /tmp/o.json; timeout ${T:-300} ./run.sh /tmp/o.json "$1" 2>&1 | tee /tmp/log.txt | grep -E "^error|panicked|call|^ret" -A9 | head -${L:-60}; python3 /verif/sa/show.py
