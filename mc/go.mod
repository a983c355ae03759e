module verif/mc

go 1.24

require github.com/cespedes/accounting v0.0.0

require github.com/lib/pq v1.3.0 // indirect

replace github.com/cespedes/accounting => /repo
