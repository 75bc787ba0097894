# Sourced by the other scripts: the toolchain, offline.
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:${PATH:-}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
unset GOOS GOARCH GOEXPERIMENT GODEBUG GOROOT
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"

# build ID: compiles the program of one property against /repo's working tree.
build() {
	local id="${1,,}" flags=()
	[ "$id" = c17 ] && flags=(-race)
	mkdir -p "$VERIF/out/bin"
	(cd "$VERIF/harness" && go build "${flags[@]}" -o "$VERIF/out/bin/$id" "./props/$id") || return
	[ "$id" != c17 ] || (cd "$VERIF/harness" && go build -o "$VERIF/out/bin/$id-plain" "./props/$id")
}
