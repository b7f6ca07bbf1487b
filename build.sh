# sourced by check.sh and setup.sh: builds the harness into .build (git-ignored)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local
cd "$root" || return 2
mkdir -p "$root/.build"
build() {
	local args=()
	[ "$1" = vh-race ] && args=(-race)
	if ! (cd "$root/harness" && go build "${args[@]}" -o "$root/.build/$1.tmp.$$" .) >"$root/.build/$1.$$.log" 2>&1; then
		echo "ERROR: the harness does not build against /repo" >&2
		cat "$root/.build/$1.$$.log" >&2
		rm -f "$root/.build/$1.$$.log"
		return 2
	fi
	rm -f "$root/.build/$1.$$.log"
	mv "$root/.build/$1.tmp.$$" "$root/.build/$1"
}
