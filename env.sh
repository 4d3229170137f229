# Sourced by check.sh and setup.sh.
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly GO111MODULE=on CGO_ENABLED=0
for v in $(compgen -e | grep '^DRONE_' || true); do unset "$v"; done
for v in http_proxy https_proxy no_proxy HTTP_PROXY HTTPS_PROXY NO_PROXY; do unset "$v"; done
