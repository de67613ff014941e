cd /verif
grep '^fixed' known_findings.txt | while read _ p c rest; do
 p=${p#property=}
 d=/tmp/w_$c; rm -rf $d; git -C /repo worktree add -q --detach $d HEAD 2>/dev/null
 if git -C $d -c core.autocrlf=false revert -n $c >/dev/null 2>&1; then
  out=$(VERIF_REPO=$d ./check.py $p 2>&1); rc=$?
  echo "$p $c rc=$rc $(echo "$out" | head -1 | cut -c1-120)"
 else echo "$p $c CONFLICT $rest"; fi
 git -C /repo worktree remove --force $d
done
