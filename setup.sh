#!/bin/bash
# Builds the driver once (warms the Go build cache) and checks that TLC runs.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p work evidence
(cd harness && go build -o ../work/egtsdrv-setup . && rm -f ../work/egtsdrv-setup)
(cd spec && tla-sany CodecTrace.tla >/dev/null)
echo setup ok
