# common environment of every command (offline, fixed toolchain)
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/bin:/usr/local/go/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
