#!/bin/bash
# check.sh <property>: decides one property from the source in /repo
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
if [ ! -x bin/zkcheck ] || [ -n "$(find zkcheck -newer bin/zkcheck -print -quit)" ]; then
  bash build.sh || exit 2
fi
mkdir -p evidence
exec bin/zkcheck check "$1"
