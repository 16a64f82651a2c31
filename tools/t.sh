#!/bin/bash
# t.sh PROP FILE OLD NEW [lines]: debug run of a check with one textual change (file relative to tracer/)
rm -rf /tmp/ob; mkdir /tmp/ob; cp -a /repo/tracer /tmp/ob/; python3 - "$2" "$3" "$4" <<'P' || exit 1
import sys
p='/tmp/ob/tracer/'+sys.argv[1]; s=open(p).read(); assert sys.argv[2] in s; open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
cd /verif; VERIF_REPO=/tmp/ob tools/r.sh $1 ${5:-4}
