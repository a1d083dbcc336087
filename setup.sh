#!/bin/bash
# Warms the build cache; everything is rebuilt by each check anyway.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
work=$(mktemp -d /tmp/verif-setup.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
mkdir -p "$here/evidence"
cp -r "$here/mc" "$work/mc" && cd "$work/mc" && go build -o "$work/explorer" .
