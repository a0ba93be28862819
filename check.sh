#!/bin/bash
# check.sh ID TIER: decide one property on /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
"$here/setup.sh" >/dev/null || { echo "gov does not build"; exit 2; }
exec "$here/bin/gov" check -id "$1" -tier "${2:-quick}"
