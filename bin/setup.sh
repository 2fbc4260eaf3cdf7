#!/bin/bash
# builds the extractor
set -e
cd "$(dirname "$0")/.."
bash ccx/build.sh
