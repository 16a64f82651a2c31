#!/bin/bash
# onebug.sh CORPUS NAME PROP [lines]: debug run of a check on one corpus entry
rm -rf /tmp/ob; mkdir /tmp/ob; cp -a /repo/tracer /tmp/ob/
cd /verif/tools && python3 - "$1" "$2" <<'P'
import sys
R = __import__(sys.argv[1]).R
for x in R:
    if x[0] == sys.argv[2]:
        for f, o, n in x[1]:
            p = '/tmp/ob/' + f; s = open(p).read(); assert s.count(o) == 1; open(p, 'w').write(s.replace(o, n))
P
cd /verif; VERIF_REPO=/tmp/ob tools/r.sh $3 ${4:-20}
