#!/bin/bash
# maps.sh TMPDIR: writes TMPDIR/maps.json, an overlay of the Go runtime where the
# beginning of every iteration over a map (and the hash seeds) can be chosen.
set -e
tmp=$1
root=$(go env GOROOT)
src=$root/src/internal/runtime/maps
grep -q '^	it.entryOffset = rand()$' "$src/table.go"
grep -q '^	it.dirOffset = rand()$' "$src/table.go"
sed -e 's/^	it.entryOffset = rand()$/	it.entryOffset, it.dirOffset = mcOffsets(m.used)/' -e '/^	it.dirOffset = rand()$/d' "$src/table.go" > "$tmp/table.go"
cat >> "$tmp/table.go" <<'EOF'

// McOn says that the choices are in McSeq (one per iteration over a map with more than one element).
var McOn bool
var McPos int
var McSeq [1024]uint8
var McSeed uint64

func mcOffsets(used uint64) (uint64, uint64) {
	if !McOn {
		return rand(), rand()
	}
	if used < 2 {
		return 0, 0
	}
	var c uint64
	if McPos < len(McSeq) {
		c = uint64(McSeq[McPos])
	}
	McPos++
	return c, c >> 3
}

func mcSeed() uint64 {
	if !McOn {
		return rand()
	}
	return McSeed
}
EOF
sed -e 's/m.seed = uintptr(rand())/m.seed = uintptr(mcSeed())/' "$src/map.go" > "$tmp/map.go"
printf '{"Replace": {"%s": "%s", "%s": "%s"}}\n' "$src/table.go" "$tmp/table.go" "$src/map.go" "$tmp/map.go" > "$tmp/maps.json"
