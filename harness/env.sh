# sourced by the check scripts: offline Go toolchain
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off GOSUMDB=off
