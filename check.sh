#!/bin/bash
# check.sh PROPERTY [quick|thorough]   run the check of a property
# check.sh replay FILE                 run one saved case
# Builds the harness (and the drone-yaml command, if the check needs it)
# from /repo's working tree in a scratch directory that is removed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
work=$(mktemp -d /tmp/verif-work.XXXXXX) || exit 3
trap 'chmod -R u+rwX "$work" 2>/dev/null; rm -rf "$work"' EXIT
export TMPDIR="$work"
cd "$here/harness" || exit 3
go build -o "$work/vh" . >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; echo "check.sh: the harness does not build" >&2; exit 3; }
target=$1
if [ "$target" = replay ]; then file=$(realpath "$2"); fi
if [ "$target" = replay ]; then
  prop=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$file" | head -1)
else
  prop=$target
fi
if [ "$("$work/vh" needsrace "$prop")" = yes ]; then
  CGO_ENABLED=1 go build -race -o "$work/vh" . >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; echo "check.sh: the harness does not build with -race" >&2; exit 3; }
fi
cli=
pkg=$("$work/vh" needscli "$prop")
if [ "$pkg" != no ]; then
  cli="$work/cli"
  go build -o "$cli" $pkg >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 3; }
fi
if [ "$prop" = C34 ]; then
  go build -tags oss -o "$cli-lib" ./oss >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 3; }
fi
mkdir -p "$work/run"
if [ "$target" = replay ]; then
 GORACE="halt_on_error=1 exitcode=1" "$work/vh" replay "$file" --scratch "$work/run" --cli "$cli"
  exit $?
fi
"$work/vh" run --prop "$prop" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --root "$here" --work "$work/run" --cli "$cli"
exit $?
