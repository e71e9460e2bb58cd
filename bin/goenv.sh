# the environment of the repository's own build (offline)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
