# try.sh seedid "" check...   apply an existing seed to a scratch copy and run checks
d=$(mktemp -d /tmp/try_XXXX); cp -a /repo/. $d; (cd $d && git apply ${2:-/verif/seeded/$1/patch.diff}) || exit 9
shift; shift
for c in "$@"; do QSTAT_EVID=$d/_e QSTAT_REPO=$d python3 /verif/check.py $c 2>&1 | cut -c1-300; python3 /tmp/und.py $d/_e/$c.json ${U:-4}; done
rm -rf "$d"
