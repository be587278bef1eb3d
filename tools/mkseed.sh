#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS : take the uncommitted change in /tmp/sw/r as the seeded bug's patch, reset the worktree
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/sw/r diff > $D/patch.diff; [ -s $D/patch.diff ]
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
git -C /tmp/sw/r checkout -q -- .
[ -f $D/demo.sh ] || cat > $D/demo.sh <<'P'
#!/bin/bash
# Builds demo.c (beside this file) against the library in ./src/lib and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); R=$PWD; trap 'rm -rf "$W"' EXIT
gcc -std=c11 -D_GNU_SOURCE -DHAVE_CONFIG_H -w -include ./config.h -include ./build_timestamp.h -I. -Isrc/lib -Isrc -I"$D" "$D/demo.c" -o "$W/demo" \
	-Lsrc/lib/.libs -lrrr -ljemalloc -lpthread -lm -Wl,-rpath-link,src/lib/.libs || exit 3
cd "$W" && LD_LIBRARY_PATH="$R/src/lib/.libs" timeout 120 ./demo
P
