#!/bin/bash
# check.sh <property>: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 3
if [ ! -x bin/engine ]; then ./setup.sh || exit 3; fi
exec bin/engine check "$1"
