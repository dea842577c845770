#!/bin/bash
# trybug.sh [-n] ID...: in a private copy of /repo (bind-mounted over /repo in a namespace of its own) applies
# each planted change, builds, runs the stable tests and the demo, then (unless -n) the property's quick check.
N=; [ "$1" = -n ] && { N=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/bug-XXXXXX); cp -a /repo/. "$w/"
  prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  unshare -m sh -c "
    mount --bind $w /repo && cd /repo || exit 9
    git apply --check $d/patch.diff || { echo '$id APPLY-FAILED'; exit; }
    if [ -z \"$SKIPCLEAN\" ]; then bash $d/demo.sh >$w.clean 2>&1; c=\$?; else c=skipped; fi
    git apply $d/patch.diff
    bash /opt/vp/build.sh >$w.build 2>&1 || { echo '$id BUILD-FAILED'; tail -5 $w.build; exit; }
    s=\$(bash /verif/tools/stable.sh 2>&1 | tail -1)
    bash $d/demo.sh >$w.pat 2>&1; p=\$?
    echo \"$id $prop demo clean=\$c patched=\$p tests: \$s\"
    [ \"\$c\" = 0 ] || tail -5 $w.clean
    if [ -z '$N' ]; then
      VERIF_SEED=\${VERIF_SEED:-1} python3 /verif/run.py $prop >$w.out 2>&1; r=\$?
      echo \"$id $prop check exit=\$r \$(grep -m1 VIOLATION $w.out)\"
      grep -m1 -A3 'VIOLATION' $w.out | tail -3 | cut -c1-300
    fi
  "
  find "$w" -delete; rm -f "$w".clean "$w".build "$w".pat "$w".out
done
