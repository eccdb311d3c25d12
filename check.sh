#!/bin/sh
# check.sh PROPERTY [--tier quick|thorough]
cd "$(dirname "$0")" && exec python3 check.py "$@"
