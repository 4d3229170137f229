#!/bin/bash
# Warms the build cache: builds the harness and the drone-yaml command
# in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
work=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$here/harness" || exit 3
go build -o "$work/vh" . && go build -o "$work/drone-yaml" github.com/drone/drone-yaml && go build -tags oss -o "$work/oss" ./oss && go build -tags oss -o "$work/drone-yaml-oss" github.com/drone/drone-yaml && "$work/vh" list && CGO_ENABLED=1 go build -race -o "$work/vhrace" .
