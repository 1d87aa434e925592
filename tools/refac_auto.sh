#!/bin/bash
# run.sh NAME [check ids...]  apply refac NAME to copy, run stable tests? then all checks
n=$1; shift
d=/tmp/s/rf/c_$n
rm -rf $d; cp -a /repo $d; cd /verif
/usr/bin/python3 /verif/tools/refac.py $n $d || exit 9
ids=${@:-$(seq -f "C%02g" 1 35)}
echo "== $n $(git -C $d diff --stat | tail -1)"
echo $ids | tr ' ' '\n' | GVN_REPO=$d GVN_EV=/tmp/s/rf/ev_$n xargs -P ${J:-5} -I{} sh -c 'o=$(/usr/bin/python3 -W ignore check.py {} 2>&1); r=$?; [ $r = 0 ] || echo "rc=$r $o" | cut -c1-330 | grep -v KNOWN | head -${L:-4}'
rm -rf $d
