#!/bin/sh
# sh replay.sh FILE : replays the violating cases of one check, alone, against /repo
cd "$(dirname "$0")" || exit 2
P=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$1" | head -1)
exec ./check.sh "$P" --replay "$1"
