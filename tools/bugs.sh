#!/bin/bash
# tools/bugs.sh tests|checks [-j N] ids...: run tools/bug.sh for several planted bugs; logs in /tmp/bugs/<id>.<what>
WHAT=$1; shift
J=2; [ "$1" = -j ] && { J=$2; shift 2; }
mkdir -p /tmp/bugs
if [ $WHAT = tests ]; then A='{} none'; else A='{} notest'; fi
printf '%s\n' "$@" | xargs -P $J -I{} sh -c "/verif/tools/bug.sh $A > /tmp/bugs/{}.$WHAT 2>&1"
