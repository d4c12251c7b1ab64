#!/bin/sh
# run.sh check ID [quick|thorough] | replay FILE | job ...
D=$(cd "$(dirname "$0")" && pwd)
BIN="$D/gosym/bin/gosym"
need=0
if [ ! -x "$BIN" ]; then need=1; else
  for f in "$D"/gosym/*.go "$D"/gosym/go.mod; do [ "$f" -nt "$BIN" ] && need=1; done
fi
if [ $need = 1 ]; then
  mkdir -p "$D/gosym/bin"
  ( cd "$D/gosym" && PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN" ) || exit 3
fi
export VERIF_DIR="$D"
exec "$BIN" "$@"
