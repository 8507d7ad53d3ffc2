#!/bin/bash
# Warms the build cache: every check builds again from /repo's current tree.
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 1
go build -o /dev/null . && go build -race -o /dev/null .
