#!/bin/bash
# trymut.sh SEED IDS...: runs quick checks against a scratch copy of /repo with a planted bug.
seed=$1; shift
W=/tmp/s/mut-$seed; V=/tmp/s/v-$seed
mkdir -p /tmp/s; rm -rf "$W" "$V"; cp -a /repo "$W"; mkdir -p "$V/.bin"; cp /verif/known-findings.txt "$V/"
git -C "$W" apply "/verif/seeded/$seed/patch.diff" || exit 3
cd /verif/mc
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
sed "s#=> /repo#=> $W#" go.mod > "$V/go.mod"; : > "$V/go.sum"
go build -modfile="$V/go.mod" -o "$V/.bin/mc" . || exit 3
case " $* " in *" C10 "*) go build -race -modfile="$V/go.mod" -o "$V/.bin/mc-race" . ;; esac
for id in "$@"; do
  s=$(date +%s)
  MC_VERIF=$V "$V/.bin/mc" $id ${TIER:-quick} > "$V/$id.out" 2>&1; rc=$?
  echo "$seed $id rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION "$V/$id.out")"
done
rm -rf "$W"
