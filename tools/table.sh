#!/bin/bash
# table.sh: every planted bug against the check of its property, on scratch copies; prints "SEED PROPERTY rc"
one() {
  s=$1; p=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  d=/tmp/s/tb_$s; rm -rf $d; cp -a /repo $d
  (cd $d && git apply /verif/seeded/$s/patch.diff) || { echo "$s $p APPLY"; rm -rf $d; return; }
  GVN_REPO=$d GVN_EV=/tmp/s/tbev_$s timeout 900 /usr/bin/python3 -W ignore /verif/check.py $p > /tmp/s/tb_$s.log 2>&1
  echo "$s $p rc=$?"; rm -rf $d /tmp/s/tbev_$s /tmp/s/tb_$s.log
}
export -f one
ls /verif/seeded | xargs -P ${J:-7} -I{} bash -c 'one {}'
