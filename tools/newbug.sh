#!/bin/bash
# newbug.sh ID PROP "needs" "breaks" ; takes the current /repo working diff as the patch, demo.cpp from /tmp/w/demo.cpp
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ]
cp /tmp/w/demo.cpp $D/demo.cpp; rm -rf $D/stub; cp -r /verif/stub $D/stub; cp /verif/harness/{common,ref,build_inst}.h $D/
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
cat > $D/demo.sh <<'P'
#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
SRC="src/include/pdaaal/internal/PDA.cpp src/include/pdaaal/internal/Reducer.cpp"; FLAGS=""; ARGS=""
[ -f "$D/demo.conf" ] && . "$D/demo.conf"
g++ -std=gnu++20 -w -O0 -g -include functional -I"$D" -I"$D/stub" -Isrc/include -Isrc/pdaaal-bin $FLAGS "$D/demo.cpp" $SRC -DVERIF_NO_ASAN_DEFAULTS -o "$W/demo" -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set $LIBS || exit 3
cd "$W" && timeout 120 ./demo $ARGS
P
chmod +x $D/demo.sh
[ -f /tmp/w/demo.conf ] && cp /tmp/w/demo.conf $D/demo.conf || true
git -C /repo checkout -- .
