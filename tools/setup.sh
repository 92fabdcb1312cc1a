#!/bin/sh
# Everything is built by the checks themselves (each is run in its own copy); this only
# verifies that the tools are there.
set -e
java -version >/dev/null 2>&1
clang++ --version >/dev/null
ninja --version >/dev/null
python3 -c 'import json'
