#!/usr/bin/env python3
"""Writes harness/regworker/combos.go."""
import os
m=["Account","TransactionsInAccount","TransactionsInInterval","NewAccount","EditAccount","NewTransaction","EditTransaction","Flush"]
o="package main\n\n// Written by tools/mkcombos.py: every subset of the optional operations of a connection.\n\nimport \"github.com/cespedes/accounting\"\n\nfunc combo(n int, b *base, f *full) accounting.Connection {\n\tswitch n {\n"
for n in range(256):
    e=[f"m{x}" for i,x in enumerate(m) if n>>i&1]
    o+=f"\tcase {n}:\n\t\treturn struct {{\n\t\t\t*base\n"+"".join(f"\t\t\t{x}\n" for x in e)+"\t\t}{b"+", f"*len(e)+"}\n"
o+="\t}\n\tpanic(\"combo\")\n}\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/regworker/combos.go'),'w').write(o)
