#!/bin/bash
# usage: bash check.sh PROPERTY quick|thorough
# Builds the explorer against /repo's working tree and runs one property.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=${1:?property} tier=${2:-quick}
work=$(mktemp -d /tmp/verif-check.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
. "$here/build.sh"
TMPDIR=$work "$work/explorer" -prop "$id" -tier "$tier" -root "$here"
