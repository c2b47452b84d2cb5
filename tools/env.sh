# Environment of the checks: offline, the toolchain the repository is built with.
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export PATH="/opt/veriftools/go1.26.10/bin:$PATH"
unset DECKARD_STORAGE_TYPE OTEL_RESOURCE_ATTRIBUTES OTEL_SERVICE_NAME
