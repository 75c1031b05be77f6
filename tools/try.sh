#!/bin/bash
# try.sh ID PROP...: runs checks against the modified copy /tmp/plant/ID.
id=$1; shift
for p in "$@"; do
  VF_REPO=/tmp/plant/$id VF_EVIDENCE=/tmp/plant/ev timeout 900 /verif/check.sh $p > /tmp/plant/$id.$p.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/plant/$id.$p.out) $(grep -m3 'clause:' /tmp/plant/$id.$p.out | tr '\n' ' ')"
done
