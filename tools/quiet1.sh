#!/bin/bash
# quiet1.sh CHECK: run one check, print only what is not quiet (alarms, no answer, undecided obligations)
o=$(/usr/bin/python3 -W ignore check.py $1 2>&1); r=$?
if [ $r != 0 ] || ! echo "$o" | grep -q " 0 undecided"; then
  echo "rc=$r $(echo "$o" | grep -v '^KNOWN' | tr '\n' ' ')" | cut -c1-${W:-330}
fi
