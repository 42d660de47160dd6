#!/bin/bash
# run.sh <property>: analyses /repo's current source tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
if [ ! -x bin/fvet ] || [ -n "$(find analyzer -name '*.go' -newer bin/fvet -print -quit)" ]; then
	bash setup.sh || exit 2
fi
exec bin/fvet "$@"
