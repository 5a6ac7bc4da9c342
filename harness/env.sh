export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOPATH=/root/go GOCACHE=/root/.cache/go-build
