#!/bin/bash
# run.sh <property id>: analyses /repo's current source; builds the analyzer if setup has not.
here="$(cd "$(dirname "$0")" && pwd)"
[ -x "$here/bin/gearsverif" ] || bash "$here/build.sh" || exit 2
exec "$here/bin/gearsverif" "$@"
