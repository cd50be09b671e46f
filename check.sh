#!/bin/bash
# check.sh PROPERTY [quick|thorough]   or   check.sh --setup
# Rebuilds everything from /repo's current working tree and decides one property.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
REPO=${VERIF_REPO:-/repo}
mkdir -p build evidence replay
build() {
  (cd gover && go build -o "$V/build/gover" .) || return 2
  python3 - "$V" "$REPO" > build/overlay.json <<'P' || return 2
import sys, os, json, glob
v, repo = sys.argv[1:]
print(json.dumps({"Replace": {os.path.join(repo, "zzverif", os.path.basename(f)): f for f in sorted(glob.glob(v + "/harness/*.go"))}}))
P
  RACE=""
  OUT=harness
  if [ "$1" = C16 ]; then RACE=-race; OUT=harness-race; fi
  (cd "$REPO" && go build $RACE -overlay "$V/build/overlay.json" -o "$V/build/$OUT" ./zzverif) || return 2
}
if [ "$1" = --setup ]; then
  build && build C16
  exit $?
fi
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
build "$P" || { echo "build failed"; exit 2; }
H=build/harness
[ "$P" = C16 ] && H=build/harness-race
exec build/gover check -repo "$REPO" -contracts contracts -prop "$P" -tier "$TIER" -seed "$SEED" -harness "$H" -root "$V"
