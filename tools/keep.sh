# keep.sh MUTFILE NAME CHECK : undecided of a mutant, unique by rule/where
d=$(mktemp -d /tmp/kp_XXXX); cp -a /repo/. $d
python3 - $1 $2 $d <<'P'
import sys
ns={}; exec(open(sys.argv[1]).read(),ns)
for n,c,ed in ns['M']:
    if n==sys.argv[2]:
        for f,o,w in ed:
            p=sys.argv[3]+'/'+f; s=open(p).read(); assert o in s; open(p,'w').write(s.replace(o,w,1))
P
QSTAT_EVID=$d/_e QSTAT_REPO=$d python3 /verif/check.py $3 2>&1 | cut -c1-300 | head -5
python3 /tmp/und.py $d/_e/$3.json ${4:-60} | cut -c1-${W:-300}
rm -rf "$d"
