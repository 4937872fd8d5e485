# Environment of the checks.
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GOSUMDB=off
unset GODEBUG GORACE GOGC GOMAXPROCS
VSIM_VERIF=$PWD
export VSIM_VERIF
VSIM=$PWD/.build/vsim
vsim_build() {
	mkdir -p "$VSIM_VERIF/.build" || return 2
	(cd tools/vsim && flock "$VSIM_VERIF/.build/vsim.lock" go build -o "$VSIM" .) || { echo "building vsim failed" >&2; exit 2; }
}
