#!/bin/bash
# test.sh ids... : validates seeds: clean demo 0, patched builds, stable tests pass, demo nonzero; then check
cd /repo || exit 1
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 bash $d/demo.sh >/tmp/seed/$id.clean 2>&1; c=$?
 w=/tmp/seed/t-$id; rm -rf $w; cp -a /repo $w; (cd $w && git apply $d/patch.diff) || { echo "$id APPLY FAIL"; continue; }
 (cd $w && bash $d/demo.sh >/tmp/seed/$id.bad 2>&1); b=$?
 # stable tests
 t=$(G=/tmp/seed/g-$id; rm -rf $G; mkdir -p $G/src/gitlab.cs.fau.de/since; ln -s $w $G/src/gitlab.cs.fau.de/since/radolan; cd $G/src/gitlab.cs.fau.de/since/radolan; export HOME=/root GO111MODULE=off GOPATH=$G GOCACHE=/tmp/seed/cache GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off CGO_ENABLED=0 TZ=Europe/Berlin; go vet ./... >/tmp/seed/$id.vet 2>&1; go test -v ./... 2>&1 | grep -E '^--- ' | sort | awk '{print $2 $3}' | tr '\n' ' '; rm -rf $G)
 if [ -z "$NOCHECK" ]; then VERIF_REPO=$w python3 /verif/check.py $p quick >/tmp/seed/$id.check 2>&1; k=$?; fi
 echo "$id [$p] clean=$c patched=$b check=$k fails=$(echo $t | tr ' ' '\n' | grep -c FAIL) passes=$(echo $t | tr ' ' '\n' | grep -c PASS) $(tail -1 /tmp/seed/$id.bad)"
 [ "$k" = 1 ] && grep -v VIOLATION /tmp/seed/$id.check | head -1 | cut -c1-200
 [ "$k" != 1 ] && tail -2 /tmp/seed/$id.check
 rm -rf $w
done
