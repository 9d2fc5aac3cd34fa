#!/bin/bash
# mut.sh FILE 'old' 'new' 'unit-regex' [PROP]: verdict of units on a scratch copy with one textual replacement
D=$(mktemp -d); cp -a /repo/src $D/src
python3 - "$D/$1" "$2" "$3" <<'P'
import sys
f,o,n=sys.argv[1:]
s=open(f,newline='').read()
o2=o.replace("\\n","\n"); n2=n.replace("\\n","\n")
if o2 not in s: o2=o2.replace("\n","\r\n"); n2=n2.replace("\n","\r\n")
assert s.count(o2)>=1,"not found"
open(f,'w',newline='').write(s.replace(o2,n2,1))
P
VALORI_SRC=$D/src/valori PROP=$5 python3-vt -m pyvc.verify "$4" 2>&1 | cut -c1-260 | tail -${6:-12}
rm -rf "$D"
