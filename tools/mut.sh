#!/bin/bash
# tools/mut.sh ID FILE SED-EXPR : run check ID against a scratch copy of /repo
# in which FILE was edited with the sed expression.
d=$(mktemp -d /tmp/mut-XXXXXX)
cp -a /repo/. $d/ && rm -rf $d/_build $d/.git
cp $d/$2 $d/$2.orig
sed -i -E "$3" $d/$2
diff $d/$2.orig $d/$2 | head -${4:-8}
cmp -s $d/$2.orig $d/$2 && echo "!! NO CHANGE"
VERIF_REPO=$d python3 /verif/check.py $1 2>&1 | grep -v "^  \[" | tail -6
rm -rf "$d"
