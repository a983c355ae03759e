#!/bin/bash
# tables.sh TMPDIR: writes TMPDIR/tables.mod, the go.mod of /repo with another module tableview
# where tables are written to a file instead of being shown in a terminal.
set -e
tmp=$1
here=$(cd "$(dirname "$0")" && pwd)
mkdir "$tmp/tableview"
cp "$here/tableview.go.txt" "$tmp/tableview/tableview.go"
printf 'module github.com/cespedes/tableview\n\ngo 1.13\n' > "$tmp/tableview/go.mod"
cp /repo/go.mod "$tmp/tables.mod"
cp /repo/go.sum "$tmp/tables.sum"
go mod edit -replace "github.com/cespedes/tableview=$tmp/tableview" "$tmp/tables.mod"
