#!/bin/bash
# plant.sh SPEC.py [ID...]: runs plant.py in a mount namespace of its own, over a scratch copy of /repo.
w=$(mktemp -d /tmp/pl.XXXXXX); cp -a /repo "$w/repo"; mkdir "$w/build"; cp -a /verif/.build/replay "$w/build/" 2>/dev/null
unshare -m bash -c "mount --bind $w/repo /repo && mkdir -p /verif/.build && mount --bind $w/build /verif/.build && TMPDIR=$w python3 /verif/tools/plant.py $*"
rm -r "$w"
