#!/bin/bash
# det.sh <ID> [count]: determinism of the runs across processes (after tools/dev.sh)
D=${DEV:-/tmp/dev}; cd $D; mkdir -p run${1}1 run${1}2 run${1}3; race=; case $1 in C06|C15|C07) race="-race $D/sim.race";; esac
for k in 1 2 3; do ./sim.bin $race -check $1 -scratch $D/run$1$k -verif $D/v -hashes -from 0 -count ${2:-400} 2>/dev/null | md5sum; done | sort | uniq -c | sed "s/^/$1 /"
