#!/bin/bash
# tools/replay.sh ID UNIT FAMILY CASE SEED : rebuild the harness and run one case under the sanitizers
set -e
cd "$(dirname "$0")/.."
exec python3 tools/replay.py "$@"
