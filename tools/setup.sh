#!/bin/bash
# builds the monitors once, so that the Go build cache is warm
. /opt/vp/env.sh
cd "$(dirname "$0")/../harness" && go build -o /dev/null ./cmd/favecheck
