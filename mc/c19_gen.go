// Code generated by tools/gen19.py. DO NOT EDIT.

package main

import "github.com/cespedes/accounting"

// subsetConn returns a connection which implements only the operations of mask.
func subsetConn(mask int, b *qBase) accounting.Connection {
	switch mask {
	case 0:
		return struct {
			*qBase
		}{b}
	case 1:
		return struct {
			*qBase
			qAccount
		}{b, qAccount{b}}
	case 2:
		return struct {
			*qBase
			qInAccount
		}{b, qInAccount{b}}
	case 3:
		return struct {
			*qBase
			qAccount
			qInAccount
		}{b, qAccount{b}, qInAccount{b}}
	case 4:
		return struct {
			*qBase
			qInInterval
		}{b, qInInterval{b}}
	case 5:
		return struct {
			*qBase
			qAccount
			qInInterval
		}{b, qAccount{b}, qInInterval{b}}
	case 6:
		return struct {
			*qBase
			qInAccount
			qInInterval
		}{b, qInAccount{b}, qInInterval{b}}
	case 7:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}}
	case 8:
		return struct {
			*qBase
			qNewAccount
		}{b, qNewAccount{b}}
	case 9:
		return struct {
			*qBase
			qAccount
			qNewAccount
		}{b, qAccount{b}, qNewAccount{b}}
	case 10:
		return struct {
			*qBase
			qInAccount
			qNewAccount
		}{b, qInAccount{b}, qNewAccount{b}}
	case 11:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}}
	case 12:
		return struct {
			*qBase
			qInInterval
			qNewAccount
		}{b, qInInterval{b}, qNewAccount{b}}
	case 13:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}}
	case 14:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}}
	case 15:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}}
	case 16:
		return struct {
			*qBase
			qEditAccount
		}{b, qEditAccount{b}}
	case 17:
		return struct {
			*qBase
			qAccount
			qEditAccount
		}{b, qAccount{b}, qEditAccount{b}}
	case 18:
		return struct {
			*qBase
			qInAccount
			qEditAccount
		}{b, qInAccount{b}, qEditAccount{b}}
	case 19:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}}
	case 20:
		return struct {
			*qBase
			qInInterval
			qEditAccount
		}{b, qInInterval{b}, qEditAccount{b}}
	case 21:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}}
	case 22:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}}
	case 23:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}}
	case 24:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
		}{b, qNewAccount{b}, qEditAccount{b}}
	case 25:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}}
	case 26:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}}
	case 27:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}}
	case 28:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}}
	case 29:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}}
	case 30:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}}
	case 31:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}}
	case 32:
		return struct {
			*qBase
			qNewTx
		}{b, qNewTx{b}}
	case 33:
		return struct {
			*qBase
			qAccount
			qNewTx
		}{b, qAccount{b}, qNewTx{b}}
	case 34:
		return struct {
			*qBase
			qInAccount
			qNewTx
		}{b, qInAccount{b}, qNewTx{b}}
	case 35:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qNewTx{b}}
	case 36:
		return struct {
			*qBase
			qInInterval
			qNewTx
		}{b, qInInterval{b}, qNewTx{b}}
	case 37:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewTx
		}{b, qAccount{b}, qInInterval{b}, qNewTx{b}}
	case 38:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewTx
		}{b, qInAccount{b}, qInInterval{b}, qNewTx{b}}
	case 39:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewTx{b}}
	case 40:
		return struct {
			*qBase
			qNewAccount
			qNewTx
		}{b, qNewAccount{b}, qNewTx{b}}
	case 41:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qNewTx
		}{b, qAccount{b}, qNewAccount{b}, qNewTx{b}}
	case 42:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qNewTx
		}{b, qInAccount{b}, qNewAccount{b}, qNewTx{b}}
	case 43:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qNewTx{b}}
	case 44:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qNewTx
		}{b, qInInterval{b}, qNewAccount{b}, qNewTx{b}}
	case 45:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qNewTx
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}}
	case 46:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}}
	case 47:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}}
	case 48:
		return struct {
			*qBase
			qEditAccount
			qNewTx
		}{b, qEditAccount{b}, qNewTx{b}}
	case 49:
		return struct {
			*qBase
			qAccount
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 50:
		return struct {
			*qBase
			qInAccount
			qEditAccount
			qNewTx
		}{b, qInAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 51:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 52:
		return struct {
			*qBase
			qInInterval
			qEditAccount
			qNewTx
		}{b, qInInterval{b}, qEditAccount{b}, qNewTx{b}}
	case 53:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}}
	case 54:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}}
	case 55:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}}
	case 56:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 57:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 58:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 59:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 60:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 61:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 62:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 63:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}}
	case 64:
		return struct {
			*qBase
			qEditTx
		}{b, qEditTx{b}}
	case 65:
		return struct {
			*qBase
			qAccount
			qEditTx
		}{b, qAccount{b}, qEditTx{b}}
	case 66:
		return struct {
			*qBase
			qInAccount
			qEditTx
		}{b, qInAccount{b}, qEditTx{b}}
	case 67:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qEditTx{b}}
	case 68:
		return struct {
			*qBase
			qInInterval
			qEditTx
		}{b, qInInterval{b}, qEditTx{b}}
	case 69:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qEditTx{b}}
	case 70:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qEditTx{b}}
	case 71:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditTx{b}}
	case 72:
		return struct {
			*qBase
			qNewAccount
			qEditTx
		}{b, qNewAccount{b}, qEditTx{b}}
	case 73:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditTx
		}{b, qAccount{b}, qNewAccount{b}, qEditTx{b}}
	case 74:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditTx
		}{b, qInAccount{b}, qNewAccount{b}, qEditTx{b}}
	case 75:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditTx{b}}
	case 76:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditTx
		}{b, qInInterval{b}, qNewAccount{b}, qEditTx{b}}
	case 77:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditTx{b}}
	case 78:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditTx{b}}
	case 79:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditTx{b}}
	case 80:
		return struct {
			*qBase
			qEditAccount
			qEditTx
		}{b, qEditAccount{b}, qEditTx{b}}
	case 81:
		return struct {
			*qBase
			qAccount
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 82:
		return struct {
			*qBase
			qInAccount
			qEditAccount
			qEditTx
		}{b, qInAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 83:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 84:
		return struct {
			*qBase
			qInInterval
			qEditAccount
			qEditTx
		}{b, qInInterval{b}, qEditAccount{b}, qEditTx{b}}
	case 85:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}, qEditTx{b}}
	case 86:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qEditTx{b}}
	case 87:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qEditTx{b}}
	case 88:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 89:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 90:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 91:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 92:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 93:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 94:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 95:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}}
	case 96:
		return struct {
			*qBase
			qNewTx
			qEditTx
		}{b, qNewTx{b}, qEditTx{b}}
	case 97:
		return struct {
			*qBase
			qAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qNewTx{b}, qEditTx{b}}
	case 98:
		return struct {
			*qBase
			qInAccount
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qNewTx{b}, qEditTx{b}}
	case 99:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qNewTx{b}, qEditTx{b}}
	case 100:
		return struct {
			*qBase
			qInInterval
			qNewTx
			qEditTx
		}{b, qInInterval{b}, qNewTx{b}, qEditTx{b}}
	case 101:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qNewTx{b}, qEditTx{b}}
	case 102:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qNewTx{b}, qEditTx{b}}
	case 103:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewTx{b}, qEditTx{b}}
	case 104:
		return struct {
			*qBase
			qNewAccount
			qNewTx
			qEditTx
		}{b, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 105:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 106:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 107:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 108:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
		}{b, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 109:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 110:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 111:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}}
	case 112:
		return struct {
			*qBase
			qEditAccount
			qNewTx
			qEditTx
		}{b, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 113:
		return struct {
			*qBase
			qAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 114:
		return struct {
			*qBase
			qInAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 115:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 116:
		return struct {
			*qBase
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
		}{b, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 117:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 118:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 119:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 120:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 121:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 122:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 123:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 124:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 125:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 126:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 127:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}}
	case 128:
		return struct {
			*qBase
			qFlush
		}{b, qFlush{b}}
	case 129:
		return struct {
			*qBase
			qAccount
			qFlush
		}{b, qAccount{b}, qFlush{b}}
	case 130:
		return struct {
			*qBase
			qInAccount
			qFlush
		}{b, qInAccount{b}, qFlush{b}}
	case 131:
		return struct {
			*qBase
			qAccount
			qInAccount
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qFlush{b}}
	case 132:
		return struct {
			*qBase
			qInInterval
			qFlush
		}{b, qInInterval{b}, qFlush{b}}
	case 133:
		return struct {
			*qBase
			qAccount
			qInInterval
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qFlush{b}}
	case 134:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qFlush{b}}
	case 135:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qFlush{b}}
	case 136:
		return struct {
			*qBase
			qNewAccount
			qFlush
		}{b, qNewAccount{b}, qFlush{b}}
	case 137:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qFlush{b}}
	case 138:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qFlush{b}}
	case 139:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qFlush{b}}
	case 140:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qFlush{b}}
	case 141:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qFlush{b}}
	case 142:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qFlush{b}}
	case 143:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qFlush{b}}
	case 144:
		return struct {
			*qBase
			qEditAccount
			qFlush
		}{b, qEditAccount{b}, qFlush{b}}
	case 145:
		return struct {
			*qBase
			qAccount
			qEditAccount
			qFlush
		}{b, qAccount{b}, qEditAccount{b}, qFlush{b}}
	case 146:
		return struct {
			*qBase
			qInAccount
			qEditAccount
			qFlush
		}{b, qInAccount{b}, qEditAccount{b}, qFlush{b}}
	case 147:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}, qFlush{b}}
	case 148:
		return struct {
			*qBase
			qInInterval
			qEditAccount
			qFlush
		}{b, qInInterval{b}, qEditAccount{b}, qFlush{b}}
	case 149:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}, qFlush{b}}
	case 150:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qFlush{b}}
	case 151:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qFlush{b}}
	case 152:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
			qFlush
		}{b, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 153:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 154:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 155:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 156:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 157:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 158:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 159:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qFlush{b}}
	case 160:
		return struct {
			*qBase
			qNewTx
			qFlush
		}{b, qNewTx{b}, qFlush{b}}
	case 161:
		return struct {
			*qBase
			qAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qNewTx{b}, qFlush{b}}
	case 162:
		return struct {
			*qBase
			qInAccount
			qNewTx
			qFlush
		}{b, qInAccount{b}, qNewTx{b}, qFlush{b}}
	case 163:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewTx{b}, qFlush{b}}
	case 164:
		return struct {
			*qBase
			qInInterval
			qNewTx
			qFlush
		}{b, qInInterval{b}, qNewTx{b}, qFlush{b}}
	case 165:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewTx{b}, qFlush{b}}
	case 166:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewTx{b}, qFlush{b}}
	case 167:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewTx{b}, qFlush{b}}
	case 168:
		return struct {
			*qBase
			qNewAccount
			qNewTx
			qFlush
		}{b, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 169:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 170:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qNewTx
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 171:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 172:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qNewTx
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 173:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 174:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 175:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qFlush{b}}
	case 176:
		return struct {
			*qBase
			qEditAccount
			qNewTx
			qFlush
		}{b, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 177:
		return struct {
			*qBase
			qAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 178:
		return struct {
			*qBase
			qInAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qInAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 179:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 180:
		return struct {
			*qBase
			qInInterval
			qEditAccount
			qNewTx
			qFlush
		}{b, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 181:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 182:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 183:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 184:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 185:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 186:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 187:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 188:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 189:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 190:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 191:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qFlush{b}}
	case 192:
		return struct {
			*qBase
			qEditTx
			qFlush
		}{b, qEditTx{b}, qFlush{b}}
	case 193:
		return struct {
			*qBase
			qAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qEditTx{b}, qFlush{b}}
	case 194:
		return struct {
			*qBase
			qInAccount
			qEditTx
			qFlush
		}{b, qInAccount{b}, qEditTx{b}, qFlush{b}}
	case 195:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qEditTx{b}, qFlush{b}}
	case 196:
		return struct {
			*qBase
			qInInterval
			qEditTx
			qFlush
		}{b, qInInterval{b}, qEditTx{b}, qFlush{b}}
	case 197:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qEditTx{b}, qFlush{b}}
	case 198:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qEditTx{b}, qFlush{b}}
	case 199:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditTx{b}, qFlush{b}}
	case 200:
		return struct {
			*qBase
			qNewAccount
			qEditTx
			qFlush
		}{b, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 201:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 202:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditTx
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 203:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 204:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditTx
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 205:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 206:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 207:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditTx{b}, qFlush{b}}
	case 208:
		return struct {
			*qBase
			qEditAccount
			qEditTx
			qFlush
		}{b, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 209:
		return struct {
			*qBase
			qAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 210:
		return struct {
			*qBase
			qInAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qInAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 211:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 212:
		return struct {
			*qBase
			qInInterval
			qEditAccount
			qEditTx
			qFlush
		}{b, qInInterval{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 213:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 214:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 215:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 216:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 217:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 218:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 219:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 220:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 221:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 222:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 223:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qEditTx{b}, qFlush{b}}
	case 224:
		return struct {
			*qBase
			qNewTx
			qEditTx
			qFlush
		}{b, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 225:
		return struct {
			*qBase
			qAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 226:
		return struct {
			*qBase
			qInAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 227:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 228:
		return struct {
			*qBase
			qInInterval
			qNewTx
			qEditTx
			qFlush
		}{b, qInInterval{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 229:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 230:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 231:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 232:
		return struct {
			*qBase
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 233:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 234:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 235:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 236:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 237:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 238:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 239:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 240:
		return struct {
			*qBase
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 241:
		return struct {
			*qBase
			qAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 242:
		return struct {
			*qBase
			qInAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 243:
		return struct {
			*qBase
			qAccount
			qInAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 244:
		return struct {
			*qBase
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 245:
		return struct {
			*qBase
			qAccount
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 246:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 247:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 248:
		return struct {
			*qBase
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 249:
		return struct {
			*qBase
			qAccount
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 250:
		return struct {
			*qBase
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 251:
		return struct {
			*qBase
			qAccount
			qInAccount
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 252:
		return struct {
			*qBase
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 253:
		return struct {
			*qBase
			qAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 254:
		return struct {
			*qBase
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	case 255:
		return struct {
			*qBase
			qAccount
			qInAccount
			qInInterval
			qNewAccount
			qEditAccount
			qNewTx
			qEditTx
			qFlush
		}{b, qAccount{b}, qInAccount{b}, qInInterval{b}, qNewAccount{b}, qEditAccount{b}, qNewTx{b}, qEditTx{b}, qFlush{b}}
	}
	panic("mask")
}
