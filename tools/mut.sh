#!/bin/bash
# mut.sh PROP FILE 'python-expr on s' : prove PROP on a scratch copy of /repo with FILE changed
rm -rf /tmp/mutrepo; mkdir -p /tmp/mutrepo; cp -a /repo/fastvpinns /tmp/mutrepo/
python3 - "$2" "$3" <<'P'
import sys
p='/tmp/mutrepo/'+sys.argv[1]; s=open(p).read(); o=s
a,b=sys.argv[2].split('=>',1)
assert a in s,'pattern missing'
n=__import__("os").environ.get("NTH"); i=-1
for _ in range(int(n or 1)): i=s.index(a,i+1)
s=s[:i]+b+s[i+len(a):]; open(p,'w').write(s)
P
cd ${V:-/verif}; VERIF_REPO=/tmp/mutrepo python3-vt tools/prove.py $1 2>&1 | cut -c1-260 | head -${4:-6}
[ -n "$5" ] && (mkdir -p /tmp/w; VERIF_REPO=/tmp/mutrepo bash /verif/tools/rt.sh $1 $5 | grep -A3 '"failure"')
