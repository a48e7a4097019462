#!/bin/bash
# check.sh ID [options]: decides one property against /repo's working tree
exec python3 "$(dirname "$0")/vf/run.py" "$@"
