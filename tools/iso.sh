#!/bin/sh
# iso.sh NAME CMD...: runs CMD where /repo, /opt/vp and /verif/evidence are
# scratch copies, in a mount namespace of its own.
N=$1; shift
T=/tmp/iso.$N
mkdir -p "$T/repo" "$T/vp" "$T/evidence"
cp -a /repo/. "$T/repo/" && cp -a /opt/vp/. "$T/vp/" || exit 1
unshare -Urm sh -c 'T=$1; shift; mount --bind $T/repo /repo && mount --bind $T/vp /opt/vp && mount --bind $T/evidence /verif/evidence && cd /verif && exec "$@"' iso "$T" "$@"
rc=$?
/bin/rm -rf "/tmp/iso.$N"
exit $rc
