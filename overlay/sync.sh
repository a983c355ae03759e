#!/bin/bash
# sync.sh TMPDIR: writes TMPDIR/sync.json, an overlay of the files of /repo which import
# sync or sync/atomic, where those are replaced by verif/mc/vsync and verif/mc/vatomic.
set -e
tmp=$1
mkdir -p "$tmp/sync"
sep=
n=0
{
	printf '{"Replace": {'
	while read -r f; do
		n=$((n+1))
		sed -E -e 's#^(import[[:space:]]+|[[:space:]]+)(([A-Za-z_.][A-Za-z0-9_]*)[[:space:]]+)?"sync"#\1@\3@ "verif/mc/vsync"#' -e 's#@@ "verif/mc/vsync"#sync "verif/mc/vsync"#' -e 's#@([^@]+)@ "verif/mc/vsync"#\1 "verif/mc/vsync"#' \
		    -e 's#^(import[[:space:]]+|[[:space:]]+)(([A-Za-z_.][A-Za-z0-9_]*)[[:space:]]+)?"sync/atomic"#\1@\3@ "verif/mc/vatomic"#' -e 's#@@ "verif/mc/vatomic"#atomic "verif/mc/vatomic"#' -e 's#@([^@]+)@ "verif/mc/vatomic"#\1 "verif/mc/vatomic"#' "$f" > "$tmp/sync/$n.go"
		printf '%s"%s": "%s"' "$sep" "$f" "$tmp/sync/$n.go"
		sep=', '
	done < <(grep -lE '"sync(/atomic)?"' /repo/*.go | grep -v '_test\.go$')
	printf '}}\n'
} > "$tmp/sync.json"
