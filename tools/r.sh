#!/bin/bash
# debug run: r.sh PROP [n lines]
cd /verif; VERIF_DEBUG=1 timeout 900 python3 check.py $1 2>&1 | cut -c1-${W:-330} | head -${2:-14}
