# mut.sh FILE 's/old/new/' CHECK...   mutate a copy of /repo and run checks against it
rm -rf /tmp/mw; cp -a /repo /tmp/mw
f=$1; e=$2; shift 2
python3 - "$f" "$e" <<'P'
import sys
f,e=sys.argv[1:]
o,n=e.split('=>>')
p='/tmp/mw/'+f; s=open(p).read(); assert s.count(o)>=1,(s.count(o)); open(p,'w').write(s.replace(o,n,1))
P
cd /verif
for c in "$@"; do LGR_REPO=/tmp/mw ./check.sh $c 2>&1 | cut -c1-250 | head -4; done
