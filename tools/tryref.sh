#!/bin/bash
# tryref.sh DIR IDS...: runs the quick checks against a changed copy of /repo.
W=$1; shift
V=$W.v; mkdir -p "$V/.bin"; cp /verif/known-findings.txt "$V/"
cd /verif/mc
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
sed "s#=> /repo#=> $W#" go.mod > "$V/go.mod"; : > "$V/go.sum"
go build -modfile="$V/go.mod" -o "$V/.bin/mc" . || exit 3
go build -race -modfile="$V/go.mod" -o "$V/.bin/mc-race" .
for id in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
  s=$(date +%s)
  MC_VERIF=$V "$V/.bin/mc" $id ${TIER:-quick} > "$V/$id.out" 2>&1; rc=$?
  echo "$(basename $W) $id rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION "$V/$id.out")"
done
