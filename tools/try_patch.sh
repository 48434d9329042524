#!/bin/bash
# try_patch.sh DIR ID... : runs the checks ID... against the tree DIR (a scratch copy), one line each
d=$1; shift
w=$(mktemp -d /tmp/try.XXXXXX); cp -a /verif/harness /verif/tools /verif/check.py $w/
[ -d /verif/build ] && cp -a /verif/build $w/
for c in "$@"; do
  s=$(date +%s); (cd $w && BN_REPO=$d timeout 900 python3 check.py $c > o.txt 2>&1); rc=$?
  echo "$c rc=$rc $(($(date +%s)-s))s $(head -c 420 $w/o.txt | tr '\n' ' ')"
done
rm -rf "$w"
