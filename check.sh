#!/bin/bash
# check.sh <property> : decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
bash ./build_engine.sh || exit 2
exec ./.bin/gosym -verif "$PWD" -repo /repo -prop "$1" "${@:2}"
