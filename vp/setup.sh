#!/bin/bash
# Nothing to build: the checks compile from /repo on every run. Only make sure the tools are there.
for t in cbmc goto-cc goto-instrument gcc python3; do
  command -v $t > /dev/null || { echo "missing tool: $t"; exit 1; }
done
mkdir -p "$(dirname "$0")/../evidence" "$(dirname "$0")/../replay"
cbmc --version
