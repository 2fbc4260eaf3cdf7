#!/bin/bash
# check.sh PROPERTY [tier]
cd "$(dirname "$0")/.."
[ -x build/ccx ] || bash ccx/build.sh >/dev/null || { echo "cannot build the extractor"; exit 2; }
exec python3-vt -m ccv.check "$@"
