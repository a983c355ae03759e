#!/bin/bash
# files.sh TMPDIR: writes TMPDIR/files.json, an overlay of the os package where
# opening and reading files can be controlled.
set -e
tmp=$1
root=$(go env GOROOT)
src=$root/src/os/file.go
grep -q '^	n, e := f.read(b)$' "$src"
grep -q '^	f, err := openFileNolog(name, flag, perm)$' "$src"
sed -e 's/^	n, e := f.read(b)$/	var e error\n	if h := McRead; h != nil {\n		n, e = h(f.name, b, f.read)\n	} else {\n		n, e = f.read(b)\n	}/' \
    -e 's/^	f, err := openFileNolog(name, flag, perm)$/	if h := McOpen; h != nil {\n		if err := h(name); err != nil {\n			return nil, \&PathError{Op: "open", Path: name, Err: err}\n		}\n	}\n&/' "$src" > "$tmp/osfile.go"
stat=$root/src/os/stat_unix.go
grep -q '^	err := f.pfd.Fstat(&fs.sys)$' "$stat"
sed -e 's/^	err := f.pfd.Fstat(&fs.sys)$/	if h := McStat; h != nil {\n		if err := h(f.name); err != nil {\n			return nil, f.wrapErr("stat", err)\n		}\n	}\n&/' "$stat" > "$tmp/osstat.go"
cat >> "$tmp/osfile.go" <<'EOF'

// McRead, McOpen and McStat, when set, decide what reading, opening and asking about a file gives.
var McRead func(name string, b []byte, read func([]byte) (int, error)) (int, error)
var McOpen func(name string) error
var McStat func(name string) error
EOF
printf '{"Replace": {"%s": "%s", "%s": "%s"}}\n' "$src" "$tmp/osfile.go" "$stat" "$tmp/osstat.go" > "$tmp/files.json"
