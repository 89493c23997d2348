#!/bin/bash
# builds the extraction driver and the replay harness, and warms their dependencies
set -e
cd "$(dirname "$0")"
bash kvc/extract.sh build/k.json
bash kvc/harness.sh
