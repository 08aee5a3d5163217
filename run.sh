#!/bin/bash
# usage: run.sh PROP quick|thorough
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="$2"
exec python3 check.py "$1"
