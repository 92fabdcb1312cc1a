#!/bin/bash
# mut.sh CHECK FILE SED-EXPR : does the check notice this edit of /repo? (undone afterwards)
cd /verif
f=/repo/repos/plywood/src/$2
sed -i "$3" $f
git -C /repo diff --stat | grep -q . || echo "NO CHANGE"
bash checks/run.sh $1 2>&1 | tail -3 | cut -c1-${W:-160}
git -C /repo checkout -q -- .
