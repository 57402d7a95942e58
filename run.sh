#!/bin/bash
# run.sh CHECK-ID   - build from /repo's working tree and run one check
# run.sh replay FILE - run one saved failure again
# run.sh build       - build only
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 GOSUMDB=off
mkdir -p .build
(
  flock 9
  go build -o .build/vh ./cmd/vh && (cd /repo && go build -o "$OLDPWD/.build/lharc" ./cmd)
) 9>.build/lock >&2 || { echo "build failed" >&2; exit 2; }
case "$1" in
  build) exit 0 ;;
  replay) exec .build/vh replay "$2" ;;
  *) exec .build/vh run "$1" ;;
esac
