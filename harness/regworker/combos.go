package main

// Written by tools/mkcombos.py: every subset of the optional operations of a connection.

import "github.com/cespedes/accounting"

func combo(n int, b *base, f *full) accounting.Connection {
	switch n {
	case 0:
		return struct {
			*base
		}{b}
	case 1:
		return struct {
			*base
			mAccount
		}{b, f}
	case 2:
		return struct {
			*base
			mTransactionsInAccount
		}{b, f}
	case 3:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
		}{b, f, f}
	case 4:
		return struct {
			*base
			mTransactionsInInterval
		}{b, f}
	case 5:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
		}{b, f, f}
	case 6:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
		}{b, f, f}
	case 7:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
		}{b, f, f, f}
	case 8:
		return struct {
			*base
			mNewAccount
		}{b, f}
	case 9:
		return struct {
			*base
			mAccount
			mNewAccount
		}{b, f, f}
	case 10:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
		}{b, f, f}
	case 11:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
		}{b, f, f, f}
	case 12:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
		}{b, f, f}
	case 13:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
		}{b, f, f, f}
	case 14:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
		}{b, f, f, f}
	case 15:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
		}{b, f, f, f, f}
	case 16:
		return struct {
			*base
			mEditAccount
		}{b, f}
	case 17:
		return struct {
			*base
			mAccount
			mEditAccount
		}{b, f, f}
	case 18:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
		}{b, f, f}
	case 19:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
		}{b, f, f, f}
	case 20:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
		}{b, f, f}
	case 21:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
		}{b, f, f, f}
	case 22:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
		}{b, f, f, f}
	case 23:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
		}{b, f, f, f, f}
	case 24:
		return struct {
			*base
			mNewAccount
			mEditAccount
		}{b, f, f}
	case 25:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
		}{b, f, f, f}
	case 26:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
		}{b, f, f, f}
	case 27:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
		}{b, f, f, f, f}
	case 28:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, f, f, f}
	case 29:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, f, f, f, f}
	case 30:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, f, f, f, f}
	case 31:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, f, f, f, f, f}
	case 32:
		return struct {
			*base
			mNewTransaction
		}{b, f}
	case 33:
		return struct {
			*base
			mAccount
			mNewTransaction
		}{b, f, f}
	case 34:
		return struct {
			*base
			mTransactionsInAccount
			mNewTransaction
		}{b, f, f}
	case 35:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewTransaction
		}{b, f, f, f}
	case 36:
		return struct {
			*base
			mTransactionsInInterval
			mNewTransaction
		}{b, f, f}
	case 37:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewTransaction
		}{b, f, f, f}
	case 38:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
		}{b, f, f, f}
	case 39:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
		}{b, f, f, f, f}
	case 40:
		return struct {
			*base
			mNewAccount
			mNewTransaction
		}{b, f, f}
	case 41:
		return struct {
			*base
			mAccount
			mNewAccount
			mNewTransaction
		}{b, f, f, f}
	case 42:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
		}{b, f, f, f}
	case 43:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 44:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, f, f, f}
	case 45:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 46:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 47:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, f, f, f, f, f}
	case 48:
		return struct {
			*base
			mEditAccount
			mNewTransaction
		}{b, f, f}
	case 49:
		return struct {
			*base
			mAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f}
	case 50:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f}
	case 51:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 52:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, f, f, f}
	case 53:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 54:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 55:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f, f}
	case 56:
		return struct {
			*base
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f}
	case 57:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 58:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 59:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f, f}
	case 60:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f}
	case 61:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f, f}
	case 62:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f, f}
	case 63:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, f, f, f, f, f, f}
	case 64:
		return struct {
			*base
			mEditTransaction
		}{b, f}
	case 65:
		return struct {
			*base
			mAccount
			mEditTransaction
		}{b, f, f}
	case 66:
		return struct {
			*base
			mTransactionsInAccount
			mEditTransaction
		}{b, f, f}
	case 67:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditTransaction
		}{b, f, f, f}
	case 68:
		return struct {
			*base
			mTransactionsInInterval
			mEditTransaction
		}{b, f, f}
	case 69:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditTransaction
		}{b, f, f, f}
	case 70:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
		}{b, f, f, f}
	case 71:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
		}{b, f, f, f, f}
	case 72:
		return struct {
			*base
			mNewAccount
			mEditTransaction
		}{b, f, f}
	case 73:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditTransaction
		}{b, f, f, f}
	case 74:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
		}{b, f, f, f}
	case 75:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 76:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, f, f, f}
	case 77:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 78:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 79:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, f, f, f, f, f}
	case 80:
		return struct {
			*base
			mEditAccount
			mEditTransaction
		}{b, f, f}
	case 81:
		return struct {
			*base
			mAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f}
	case 82:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f}
	case 83:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 84:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, f, f, f}
	case 85:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 86:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 87:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f, f}
	case 88:
		return struct {
			*base
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f}
	case 89:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 90:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 91:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f, f}
	case 92:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f}
	case 93:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f, f}
	case 94:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f, f}
	case 95:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, f, f, f, f, f, f}
	case 96:
		return struct {
			*base
			mNewTransaction
			mEditTransaction
		}{b, f, f}
	case 97:
		return struct {
			*base
			mAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f}
	case 98:
		return struct {
			*base
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f}
	case 99:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 100:
		return struct {
			*base
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, f, f, f}
	case 101:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 102:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 103:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 104:
		return struct {
			*base
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f}
	case 105:
		return struct {
			*base
			mAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 106:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 107:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 108:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 109:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 110:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 111:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f, f}
	case 112:
		return struct {
			*base
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f}
	case 113:
		return struct {
			*base
			mAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 114:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 115:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 116:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 117:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 118:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 119:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f, f}
	case 120:
		return struct {
			*base
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f}
	case 121:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 122:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 123:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f, f}
	case 124:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f}
	case 125:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f, f}
	case 126:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f, f}
	case 127:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, f, f, f, f, f, f, f}
	case 128:
		return struct {
			*base
			mFlush
		}{b, f}
	case 129:
		return struct {
			*base
			mAccount
			mFlush
		}{b, f, f}
	case 130:
		return struct {
			*base
			mTransactionsInAccount
			mFlush
		}{b, f, f}
	case 131:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mFlush
		}{b, f, f, f}
	case 132:
		return struct {
			*base
			mTransactionsInInterval
			mFlush
		}{b, f, f}
	case 133:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mFlush
		}{b, f, f, f}
	case 134:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mFlush
		}{b, f, f, f}
	case 135:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mFlush
		}{b, f, f, f, f}
	case 136:
		return struct {
			*base
			mNewAccount
			mFlush
		}{b, f, f}
	case 137:
		return struct {
			*base
			mAccount
			mNewAccount
			mFlush
		}{b, f, f, f}
	case 138:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mFlush
		}{b, f, f, f}
	case 139:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mFlush
		}{b, f, f, f, f}
	case 140:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, f, f, f}
	case 141:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, f, f, f, f}
	case 142:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, f, f, f, f}
	case 143:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, f, f, f, f, f}
	case 144:
		return struct {
			*base
			mEditAccount
			mFlush
		}{b, f, f}
	case 145:
		return struct {
			*base
			mAccount
			mEditAccount
			mFlush
		}{b, f, f, f}
	case 146:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
			mFlush
		}{b, f, f, f}
	case 147:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f}
	case 148:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, f, f, f}
	case 149:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, f, f, f, f}
	case 150:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, f, f, f, f}
	case 151:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, f, f, f, f, f}
	case 152:
		return struct {
			*base
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f}
	case 153:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f}
	case 154:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f}
	case 155:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f, f}
	case 156:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f}
	case 157:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f, f}
	case 158:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f, f}
	case 159:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, f, f, f, f, f, f}
	case 160:
		return struct {
			*base
			mNewTransaction
			mFlush
		}{b, f, f}
	case 161:
		return struct {
			*base
			mAccount
			mNewTransaction
			mFlush
		}{b, f, f, f}
	case 162:
		return struct {
			*base
			mTransactionsInAccount
			mNewTransaction
			mFlush
		}{b, f, f, f}
	case 163:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 164:
		return struct {
			*base
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, f, f, f}
	case 165:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 166:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 167:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 168:
		return struct {
			*base
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f}
	case 169:
		return struct {
			*base
			mAccount
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 170:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 171:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 172:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 173:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 174:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 175:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 176:
		return struct {
			*base
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f}
	case 177:
		return struct {
			*base
			mAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 178:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 179:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 180:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 181:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 182:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 183:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 184:
		return struct {
			*base
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f}
	case 185:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 186:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 187:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 188:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 189:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 190:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 191:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, f, f, f, f, f, f, f}
	case 192:
		return struct {
			*base
			mEditTransaction
			mFlush
		}{b, f, f}
	case 193:
		return struct {
			*base
			mAccount
			mEditTransaction
			mFlush
		}{b, f, f, f}
	case 194:
		return struct {
			*base
			mTransactionsInAccount
			mEditTransaction
			mFlush
		}{b, f, f, f}
	case 195:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 196:
		return struct {
			*base
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, f, f, f}
	case 197:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 198:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 199:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 200:
		return struct {
			*base
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f}
	case 201:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 202:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 203:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 204:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 205:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 206:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 207:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 208:
		return struct {
			*base
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f}
	case 209:
		return struct {
			*base
			mAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 210:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 211:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 212:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 213:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 214:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 215:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 216:
		return struct {
			*base
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 217:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 218:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 219:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 220:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 221:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 222:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 223:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f, f}
	case 224:
		return struct {
			*base
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f}
	case 225:
		return struct {
			*base
			mAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 226:
		return struct {
			*base
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 227:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 228:
		return struct {
			*base
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 229:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 230:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 231:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 232:
		return struct {
			*base
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 233:
		return struct {
			*base
			mAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 234:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 235:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 236:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 237:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 238:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 239:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f, f}
	case 240:
		return struct {
			*base
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f}
	case 241:
		return struct {
			*base
			mAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 242:
		return struct {
			*base
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 243:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 244:
		return struct {
			*base
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 245:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 246:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 247:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f, f}
	case 248:
		return struct {
			*base
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f}
	case 249:
		return struct {
			*base
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 250:
		return struct {
			*base
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 251:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f, f}
	case 252:
		return struct {
			*base
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f}
	case 253:
		return struct {
			*base
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f, f}
	case 254:
		return struct {
			*base
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f, f}
	case 255:
		return struct {
			*base
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, f, f, f, f, f, f, f, f}
	}
	panic("combo")
}
