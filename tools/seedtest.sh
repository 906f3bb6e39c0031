#!/bin/bash
# tools/seedtest.sh [-c] ID...   validate planted bugs in a private copy of /repo (bind mounted in a private mount namespace). -c: run only the property's check.
ONLYC=0; [ "$1" = -c ] && { ONLYC=1; shift; }
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedXXXX); cp -a /repo/. $W/
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  unshare -m bash -c "
    mount --bind $W /repo; cd /repo; git checkout -q -- . 
    r=''
    if [ $ONLYC = 0 ]; then bash $S/demo.sh >/dev/null 2>&1; r=\"\$r demo-clean=\$?\"; fi
    git apply $S/patch.diff || r=\"\$r APPLYFAIL\"
    if [ $ONLYC = 0 ]; then
      bash /opt/vp/build.sh >/tmp/seed_$id.log 2>&1; r=\"\$r build=\$?\"
      bash $S/demo.sh >>/tmp/seed_$id.log 2>&1; r=\"\$r demo-bug=\$?\"
      bash /opt/vp/test.sh /tmp/seed_$id.json >>/tmp/seed_$id.log 2>&1; r=\"\$r tests=\$(tail -1 /tmp/seed_$id.log)\"
    fi
    cd /verif; SECONDS=0; python3 check.py $P >/tmp/seedc_$id.log 2>&1; rc=\$?; r=\"\$r check($P)=\$rc in \${SECONDS}s\"
    echo \"$id:\$r\"
  "
  rm -rf "$W"
done
