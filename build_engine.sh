#!/bin/bash
# builds the symbolic engine from the committed sources
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p .bin
if [ ! -x .bin/gosym ] || [ -n "$(find engine -newer .bin/gosym -name '*.go' -print -quit)" ]; then
  (cd engine && GOFLAGS=-mod=mod go build -o ../.bin/gosym.tmp.$$ . && mv ../.bin/gosym.tmp.$$ ../.bin/gosym) || exit 2
fi
