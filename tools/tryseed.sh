#!/bin/bash
# tryseed.sh [-j N] ID...: for each seeded bug, in private copies of /repo and /verif bind-mounted in a namespace of its own:
# demo on the clean tree, then apply, stable tests, demo, its check. The real trees are not touched.
j=2; test "$1" = -j && { j=$2; shift 2; }
one() {
  id=$1; w=$(mktemp -d /tmp/tryseed.XXXX); d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a /repo $w/repo; cp -a /verif $w/verif; rm -rf $w/verif/evidence; cp -a /opt/vp $w/vp; mkdir -p $w/verif/evidence $w/tmp
  unshare -Urm bash -c "
    mount --bind $w/repo /repo; mount --bind $w/verif /verif; mount --bind $w/vp /opt/vp
    export TMPDIR=$w/tmp; cd /repo
    bash $d/demo.sh >/dev/null 2>&1; a=\$?
    git apply $d/patch.diff || echo cannot apply
    t=\$( (bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh $w/o.json | tail -1) )
    bash $d/demo.sh >/dev/null 2>&1; b=\$?
    s=\$(date +%s); cd /verif; python3-vt engine/run.py $p --budget ${BUDGET:-800} > $w/out 2>&1; r=\$?; e=\$(date +%s)
    c=\$(grep -E 'VIOLATION|HELD|ERROR' $w/out | sed -n 1p)
    echo \"$id prop=$p demo clean=\$a patched=\$b tests=[\$t] check rc=\$r \$((e-s)) s [\$c]\"
    cp $w/out /tmp/tryseed.$id.out
  "
  rm -rf "$w"
}
export -f one
printf '%s\n' "$@" | xargs -P $j -I{} bash -c 'one {}'
