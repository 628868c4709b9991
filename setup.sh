#!/bin/bash
# Builds the verifier and warms the build cache for the bounded checks.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p bin
(cd gv && go build -o ../bin/gv .) || exit 1
(cd oracle && go build -o /dev/null ./... ) || echo "some bounded checks do not build against this tree"
exit 0
