#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the checker against /repo and runs one check.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
id=$1
tier=${2:-${VERIF_TIER:-quick}}
if ! out=$(bash ./build.sh $([ "$id" = C10 ] && echo race) 2>&1); then
  echo "$out"
  echo "the checker does not build against /repo"
  exit 2
fi
exec ./.bin/mc "$id" "$tier"
