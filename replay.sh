#!/bin/bash
# usage: bash replay.sh REPLAY.json
# Re-runs the single execution recorded in a replay file on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "${1:?replay file}")
. "$here/env.sh"
work=$(mktemp -d /tmp/verif-replay.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
id=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$file")
. "$here/build.sh"
TMPDIR=$work "$work/explorer" -root "$here" -replay "$file"
