#!/bin/bash
# refac_run.sh ID [checks...]   one hand-made rewrite on a scratch copy of /repo; prints the checks that are not quiet
n=$1; shift
d=/tmp/s/rf/d_$n
rm -rf $d; mkdir -p /tmp/s/rf; cp -a /repo $d; cd /verif
/usr/bin/python3 -W ignore tools/rewrite.py $n $d || { echo "== $n APPLY FAILED"; rm -rf $d; exit 9; }
if [ -n "$TEST" ]; then (cd $d; /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider test 2>&1 | tail -1 | cut -c1-200); fi
ids=${@:-$(grep -o "check.py C[0-9]*" MANIFEST.json | cut -d' ' -f2 | sort -u)}
echo "== $n"
echo $ids | tr ' ' '\n' | GVN_REPO=$d GVN_EV=/tmp/s/rf/ev_$n xargs -P ${J:-7} -I{} tools/quiet1.sh {}
rm -rf $d
