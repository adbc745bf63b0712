#!/bin/bash
# fix.sh NN "message": show NN fails at HEAD, passes with the working tree, tests pass, commit
cd /repo; d=/verif/findings
git stash -q; echo "--- before:"; bash $d/run.sh $1; b=$?; git stash pop -q
echo "--- after:"; bash $d/run.sh $1; a=$?
[ $b != 0 -a $a = 0 ] || { echo "NOT COMMITTED (before=$b after=$a)"; exit 1; }
bash /opt/vp/build.sh >/tmp/t/build.log 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/t/out.json >/tmp/t/test.log 2>&1; tail -1 /tmp/t/test.log
grep -q '"failed": \[\]' /tmp/t/out.json && [ $(grep -o dstruct_ /tmp/t/out.json | wc -l) = 19 ] || { echo TESTS FAILED; exit 1; }
git commit -qam "fix: $2" && git log --oneline | head -1
