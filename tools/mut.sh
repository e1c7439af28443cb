#!/bin/bash
# usage: mut.sh PROP FILE SED-EXPR  : run a property's verifier on a mutated copy (scratch)
set -e
D=/tmp/mrepo.$$
cp -a /repo $D
sed -i "$3" $D/torchimage/$2
(cd $D && git diff --stat | tail -1; git diff -U0 | grep '^[+-]' | grep -v '^+++\|^---' | head -6)
cd /verif
DV_REPO=$D timeout 900 python3-vt -W ignore -m dv.run $1 ${@:4} 2>&1 | tail -8 | cut -c1-400
rm -rf $D
