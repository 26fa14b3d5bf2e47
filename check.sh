#!/bin/bash
# check.sh <property-id>: decide one property of the husk source tree in /repo
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 -B husklint/check.py "$@"
