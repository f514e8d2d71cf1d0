export HOME=/root GO111MODULE=off GOPATH=/tmp/sc/gopath:/verif/harness GOCACHE=/tmp/sc/cache GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off
rm -rf /tmp/sc/gopath/src/gitlab.cs.fau.de/since/radolan; cp -a /repo /tmp/sc/gopath/src/gitlab.cs.fau.de/since/radolan; rm -rf /tmp/sc/gopath/src/t12
cd /verif/harness/src/verif/mon && gofmt -l . ; go vet . && go build -o /tmp/sc/mon . && go build -o /tmp/sc/r2p gitlab.cs.fau.de/since/radolan/radolan2png
