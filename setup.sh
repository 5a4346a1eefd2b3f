#!/bin/sh
# Parses every module of the specification and compiles the harness.
set -e
cd "$(dirname "$0")"
for m in spec/*.tla; do (cd spec && tla-sany "$(basename "$m")" >/tmp/vsany.$$ 2>&1) || { cat /tmp/vsany.$$; rm -f "/tmp/vsany.$$"; exit 1; }; done
rm -f "/tmp/vsany.$$"
/opt/venv/bin/python -c 'import packaging, platformdirs, tomlkit, build'
echo "specification parses"
