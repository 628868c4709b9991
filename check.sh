#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
mkdir -p bin
(cd gv && go build -o ../bin/gv .) || { echo "the verifier does not build"; exit 2; }
exec bin/gv check -prop "$1" -verif "$PWD" -tier "$VERIF_TIER"
