#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the verifier from /verif/gover and decides one property on /repo.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/gover" && go build -o "$here/bin/gover" .) 2>"$here/evidence/build.log"; then
  cat "$here/evidence/build.log" >&2
  echo "the verifier does not build" >&2
  exit 2
fi
cd "$here" && exec "$here/bin/gover" check -repo "${VERIF_REPO:-/repo}" -verif "$here" -prop "$prop" -tier "$tier"
