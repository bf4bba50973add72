#!/bin/bash
# tryref.sh PATCH CHECK...: applies a behaviour-preserving patch in private copies (own mount namespace), runs the stable tests and the checks,
# which must all stay quiet.
d=$(realpath "$1"); shift; w=$(mktemp -d /tmp/tryref.XXXX)
cp -a /repo $w/repo; cp -a /verif $w/verif; rm -rf $w/verif/evidence; cp -a /opt/vp $w/vp; mkdir -p $w/verif/evidence $w/tmp; cp "$d" $w/p.diff
unshare -Urm bash -c "
  mount --bind $w/repo /repo; mount --bind $w/verif /verif; mount --bind $w/vp /opt/vp
  export TMPDIR=$w/tmp; cd /repo
  test -s $w/p.diff && { git apply $w/p.diff || exit 1; }
  bash /opt/vp/build.sh > $w/b.log 2>&1 || { grep -A12 '^error' $w/b.log; echo BUILD FAILED; exit 1; }
  bash /opt/vp/test.sh $w/o.json | tail -1
  cd /verif
  for p in $*; do
    s=\$(date +%s); python3-vt engine/run.py \$p --budget \${BUDGET:-850} > $w/out 2>&1; r=\$?; e=\$(date +%s)
    echo \"\$p rc=\$r \$((e-s)) s [\$(grep -E 'VIOLATION|HELD|ERROR|unknown|UNKNOWN' $w/out | tail -1)]\"
    cp $w/out /tmp/tryref.\$p.out
  done
"
rm -rf "$w"
