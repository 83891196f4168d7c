#!/bin/sh
# usage: check.sh <property id>
exec python3-vt "$(dirname "$0")/engine/driver.py" "$@"
