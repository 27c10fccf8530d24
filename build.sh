#!/bin/bash
# builds the analyser into /verif/bin (offline, from the module cache)
set -e
cd "$(dirname "$0")/zkcheck"
. /opt/vp/env.sh
mkdir -p ../bin
go build -o ../bin/zkcheck .
