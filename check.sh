#!/bin/bash
# check.sh <property> <tier>: decides one property on /repo's current tree.
. /opt/vp/env.sh 2>/dev/null || true
export GOPROXY=off GOTOOLCHAIN=local
cd "$(dirname "$0")"
[ -x bin/gosym ] || ./setup.sh >&2 || exit 2
exec bin/gosym check -prop "$1" -tier "${2:-quick}"
