# Environment for building offline; sourced by the other scripts.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
command -v go >/dev/null || export PATH="$PATH:/opt/veriftools/go1.27.3/bin:/usr/local/go/bin"
REPO=/repo
