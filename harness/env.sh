export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GOSUMDB=off
