#!/bin/bash
# chk.sh SEED CHECK...   run checks on a copy with the seed
id=$1; shift
rm -rf /tmp/s/c_$id; cp -a /repo /tmp/s/c_$id; git -C /tmp/s/c_$id apply /verif/seeded/$id/patch.diff || exit 9
for c in "$@"; do (cd /verif; GVN_REPO=/tmp/s/c_$id GVN_EV=/tmp/s/ev_$id /usr/bin/python3 -W ignore check.py $c | cut -c1-${W:-400} | head -${L:-8}); done
rm -rf /tmp/s/c_$id
