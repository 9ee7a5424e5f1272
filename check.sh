#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh replay <file>
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8
if [ ! -x bin/gosym ] || [ -n "$(find engine -newer bin/gosym -name '*.go' -print -quit)" ]; then ./build.sh || exit 2; fi
if [ "$1" = replay ]; then
	if grep -q '"kind": "c14"' "$2"; then exec python3 c14/check.py replay "$2"; fi
	exec bin/gosym replay "$2"
fi
tier=${2:-${VERIF_TIER:-quick}}
if [ "$1" = C14 ]; then VERIF_TIER=$tier exec python3 c14/check.py; fi
exec bin/gosym check -prop "$1" -tier "$tier"
