#!/bin/bash
# builds the code under test once and makes sure the TLA+ toolchain runs
set -e
cd "$(dirname "$0")"
bash /opt/vp/build.sh hexed > /dev/null
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h > /dev/null 2>&1 || true
echo setup done
