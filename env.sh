export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOENV=off GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOPATH=/verif/gopath GOCACHE=/verif/.cache/go-build
