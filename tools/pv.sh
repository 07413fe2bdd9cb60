#!/bin/bash
# pv.sh PROP...: prove, short output
cd ${V:-/verif}; for c in "$@"; do echo -n "$c "; timeout 600 python3-vt tools/prove.py $c 2>&1 | cut -c1-${W:-140} | grep -v '^ ' | tail -${N:-3}; done
