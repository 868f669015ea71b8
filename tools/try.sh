#!/bin/bash
# tools/try.sh SEED|PATCHFILE PROP [check args]: run a check on /repo's HEAD plus a patch, in a private mount namespace (nothing of it reaches /repo or /verif/.build)
if [ -z "$TRY_NS" ]; then
	[ -d /tmp/trywork/.git ] || { rm -rf /tmp/trywork; cp -a /repo /tmp/trywork; }
	(cd /tmp/trywork && git fetch -q /repo HEAD && git checkout -q -- . && git reset -q --hard FETCH_HEAD)
	d=$(mktemp -d /tmp/tryov.XXXX); mkdir $d/u $d/w $d/eu $d/ew
	env TRY_NS=1 unshare -m bash -c 'd=$1; shift; mount --bind /tmp/trywork /repo; mount -t overlay overlay -o lowerdir=/verif/.build,upperdir=$d/u,workdir=$d/w /verif/.build && mount -t overlay overlay -o lowerdir=/verif/evidence,upperdir=$d/eu,workdir=$d/ew /verif/evidence && exec bash "$@"' - $d "$0" "$@"; rc=$?; rm -rf "$d"; exit $rc
fi
seed=$1; p=$2; shift 2; cd /repo; f=$seed; [ -f "$f" ] || f=/verif/seeded/$seed/patch.diff; git apply $f || exit 3
cd /verif; timeout 900 python3 check.py $p "$@" | tail -4
