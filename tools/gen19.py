#!/usr/bin/env python3
"""Writes mc/c19_gen.go: one connection type for each subset of the operations a connection may implement."""
import os
ops = ["qAccount", "qInAccount", "qInInterval", "qNewAccount", "qEditAccount", "qNewTx", "qEditTx", "qFlush"]
out = ["// Code generated by tools/gen19.py. DO NOT EDIT.", "", "package main", "", 'import "github.com/cespedes/accounting"', "", "// subsetConn returns a connection which implements only the operations of mask.", "func subsetConn(mask int, b *qBase) accounting.Connection {", "\tswitch mask {"]
for m in range(256):
    fs = ["*qBase"] + [o for i, o in enumerate(ops) if m >> i & 1]
    vs = ["b"] + ["%s{b}" % o for i, o in enumerate(ops) if m >> i & 1]
    out += ["\tcase %d:" % m, "\t\treturn struct {"] + ["\t\t\t" + f for f in fs] + ["\t\t}{%s}" % ", ".join(vs)]
out += ["\t}", '\tpanic("mask")', "}", ""]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "c19_gen.go"), "w").write("\n".join(out))
