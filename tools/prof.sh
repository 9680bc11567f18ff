#!/bin/bash
# tools/prof.sh <id> [args]: run a check verbosely and list the slowest harnesses
ID=$1; shift
cd /verif; ( time ./check $ID -v --all "$@" ) > /tmp/$ID.log 2>&1
grep -v "^  " /tmp/$ID.log | cut -c1-400
awk '{for(i=1;i<=NF;i++) if($i ~ /^wall=/){split($i,a,"="); print a[2], $0}}' /tmp/$ID.log | sort -rn | head -${TOP:-10} | cut -c1-170
