#!/bin/bash
# check.sh PROP [--replay FILE]: decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 3
exec env PYTHONDONTWRITEBYTECODE=1 python3 -m vlib.drive "$@"
