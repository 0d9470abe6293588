#!/bin/bash
# Builds the symbolic engine (which does not depend on /repo) into /verif/bin.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p bin evidence replays
(cd engine && go build -o ../bin/engine.new . && mv ../bin/engine.new ../bin/engine) || exit 3
# warm the build cache of the replay runner
(cd harness && go build -o ../bin/runner.warm ./runner) || true
echo "setup done"
