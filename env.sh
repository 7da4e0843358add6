export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin; do [ -x $d/go ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOMEMLIMIT=8GiB
