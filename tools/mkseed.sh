#!/bin/bash
# mkseed.sh ID PROPERTY FILE OLD NEW "needs" "breaks": writes seeded/ID from a replacement in /repo/FILE (kept in /repo only while diffing).
# demo.sh and its files have to be put beside it.
set -e
id=$1; prop=$2; file=$3
d=/verif/seeded/$id; mkdir -p $d
W=$(mktemp -d); cp -a /repo $W/r; cd $W/r; git checkout -q -- .
python3 - "$file" "$4" "$5" <<'P'
import sys
p=sys.argv[1]; s=open(p,newline='').read(); crlf='\r\n' in s; o,n=sys.argv[2:4]
if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
assert s.count(o)==1, ("matches", s.count(o))
open(p,'w',newline='').write(s.replace(o,n))
P
if [ -f $d/.more ]; then bash $d/.more; fi
git diff > $d/patch.diff
python3 - "$d" "$prop" "$6" "$7" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cp /verif/tools/demo/lib.sh /verif/tools/demo/peer.py /verif/tools/demo/smallbuf.c $d/
rm -rf "$W"; wc -l $d/patch.diff
