#!/bin/sh
# check.sh PROPERTY [quick|thorough]
exec python3 "$(dirname "$0")/harness/check.py" "$@"
