#!/bin/bash
# dev.sh: builds the simulator once into /tmp/dev, for experiments: tools/dev.sh [-race]
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
verif=$(cd "$(dirname "$0")/.." && pwd)
d=${DEV:-/tmp/dev}; mkdir -p $d; rm -rf $d/sim $d/repo $d/overlay
cd $verif/tools/simbuild && go run . -repo ${VERIF_REPO:-/repo} -sim $verif/sim -out $d "$@"
