#!/bin/bash
# every check builds what it needs itself; only make sure that the tools are there
set -e
g++-10 --version >/dev/null
objcopy --version >/dev/null
python3 -c 'import json'
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/out"
