export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOFLAGS=-mod=mod
