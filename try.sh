#!/bin/bash
# developer helper: build into /tmp/vt (race and plain)
. /opt/vp/env.sh
set -e
rm -rf /tmp/vt; mkdir -p /tmp/vt
REPO=${REPO:-/repo}
(cd /verif/simgo && go build -o /tmp/simgo .)
time /tmp/simgo -repo $REPO -sim /verif/sim -harness /verif/harness -out /tmp/vt
cd /tmp/vt/harness
time go build -mod=mod -gcflags='verif.local/vsim/core=-l' -o /tmp/vt/bin .
if [ -n "$RACE" ]; then
time GOEXPERIMENT=nosizespecializedmalloc go build -mod=mod -race -gcflags='verif.local/vsim/core=-race=false -l' -gcflags='verif.local/vsim/ssync=-race=false -l' -gcflags='verif.local/vsim/stime=-race=false -l' -gcflags='verif.local/vsim/srand=-race=false -l' -gcflags='verif.local/vsim/fw=-race=false -l' -gcflags='verif.local/harness=-race=false -l' -o /tmp/vt/binrace .
fi
