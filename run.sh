#!/bin/bash
# usage: run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
id=$(echo "$1" | tr 'A-Z' 'a-z')
exec python3 -B checks/$id.py "${2:-quick}"
