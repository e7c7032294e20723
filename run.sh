#!/bin/bash
# run.sh <property id> <quick|thorough> [extra args]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
p="$(echo "$1" | tr A-Z a-z)"; t="${2:-quick}"; shift; shift
exec /usr/bin/python3 -m checks."$p" --tier "$t" "$@"
