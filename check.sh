#!/bin/bash
# usage: check.sh PROPERTY [--thorough]
cd "$(dirname "$0")" && exec python3 -B -m pkmlint.check "$@"
