#!/bin/bash
# run.sh ID [quick|thorough]          check a property
# run.sh replay ID TIER FAMILY INDEX  run only one case again
# run.sh setup                        build everything once (fills the build cache)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
here=$(cd "$(dirname "$0")" && pwd) || exit 2
tmp=$(mktemp -d /tmp/mcrun.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! mkdir -p "$HOME/.cache/go-build" 2>/dev/null || ! [ -w "$HOME/.cache/go-build" ]; then
	export GOCACHE=$tmp/gocache
fi
export MC_TMP=$tmp MC_ROOT=$here

# build BINARY ID: the machinery for a property, with /repo's working tree
build() {
	cp "$here/mc/go.mod" "$tmp/go.mod" && cp "$here/mc/go.sum" "$tmp/go.sum" || return 1
	local flags=(-modfile "$tmp/go.mod")
	case "$2" in
	C11) "$here/overlay/maps.sh" "$tmp" || return 1
		flags+=(-overlay "$tmp/maps.json" -tags ovmaps -ldflags=-checklinkname=0) ;;
	C16) "$here/overlay/files.sh" "$tmp" || return 1
		flags+=(-overlay "$tmp/files.json" -tags ovfiles -ldflags=-checklinkname=0) ;;
	esac
	(cd "$here/mc" && go build "${flags[@]}" -o "$1" .) || return 1
	case "$2" in
	C20|C21) (cd /repo && go build -o "$tmp/ledgercmd" ./cmd/ledger) || return 1
		export MC_LEDGER=$tmp/ledgercmd ;;
	C30) "$here/overlay/tables.sh" "$tmp" || return 1
		(cd /repo && go build -modfile "$tmp/tables.mod" -o "$tmp/ledgertab" ./cmd/ledger && go build -modfile "$tmp/tables.mod" -o "$tmp/tacc" ./cmd/tacc) || return 1
		export MC_LEDGERTAB=$tmp/ledgertab MC_TACC=$tmp/tacc ;;
	C29) (cd /repo && go build -o "$tmp/acc" ./cmd/acc) || return 1
		export MC_ACC=$tmp/acc ;;
	C28) (cd /repo && go build -o "$tmp/muscular" ./cmd/muscular) || return 1
		export MC_MUSCULAR=$tmp/muscular ;;
	C18) # the registry, in a program of its own: as it is, under the race detector, and with sync replaced
		(cd "$here/mc" && go build -modfile "$tmp/go.mod" -o "$tmp/regseq" ./reg) || return 1
		(cd "$here/mc" && go build -race -modfile "$tmp/go.mod" -o "$tmp/regrace" ./reg) || return 1
		export MC_REGSEQ=$tmp/regseq MC_REGRACE=$tmp/regrace
		if "$here/overlay/sync.sh" "$tmp" && (cd "$here/mc" && go build -race -modfile "$tmp/go.mod" -overlay "$tmp/sync.json" -gcflags=verif/mc/vsync=-race=false -o "$tmp/reg" ./reg) &&
			(cd "$here/mc" && go build -modfile "$tmp/go.mod" -overlay "$tmp/sync.json" -o "$tmp/regplain" ./reg); then
			export MC_REG=$tmp/reg MC_REGPLAIN=$tmp/regplain
		else
			echo "note: the synchronization of the registry cannot be replaced; only free runs"
		fi ;;
	C09) if [ -z "$MC_NORACE" ]; then
			(cd "$here/mc" && go build -race -modfile "$tmp/go.mod" -o "$tmp/mcrace" .) || return 1
			export MC_RACE=$tmp/mcrace
		fi ;;
	esac
	return 0
}

case "$1" in
setup)
	build "$tmp/mc" plain || exit 1
	for id in C11 C16 C18 C20 C28 C29 C30; do
		case $id in C11) o=maps;; C16) o=files;; *) o=;; esac
		if [ -n "$o" ] && ! [ -f "$here/overlay/$o.sh" ]; then continue; fi
		build "$tmp/mc" $id || exit 1; done
	exit 0 ;;
replay)
	build "$tmp/mc" "$2" || exit 2
	"$tmp/mc" one "$2" "$3" "$4" "$5"
	exit $? ;;
esac
build "$tmp/mc" "$1" || { echo "cannot build"; exit 2; }
"$tmp/mc" check "$1" "${2:-${VERIF_TIER:-quick}}" "$here"
exit $?
