# offline Go toolchain; build cache of our own
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
unset GOROOT GOWORK
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOENV=off GOWORK=off GOSUMDB=off GONOSUMDB='*'
export GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 GOPATH="${GOPATH:-/root/go}"
export GOCACHE=/verif/.cache/go-build
