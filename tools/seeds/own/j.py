seed("c09-mutates", "C09", [(L, "				var comments []string\n				if *s.Time != t.Time {\n					comments = append(comments, \"date:\"+formatTime(*s.Time))\n				}\n				if len(ledger.Comments[s]) > 0 {\n					comments = append(comments, ledger.Comments[s]...)\n				}\n",
 "				comments := ledger.Comments[s]\n				if *s.Time != t.Time {\n					comments = append([]string{\"date:\" + formatTime(*s.Time)}, comments...)\n					ledger.Comments[s] = comments\n				}\n")],
 "exporting the same ledger twice, with a posting which has its own date", "the second export has the date twice, and the ledger has one more comment", r'''
func check() {
	l := load("2020-01-01 x\n  A  1.00 EUR ; date:2020-01-03\n  B\n")
	a := export(l)
	eq("second export", export(l), a)
}
''')
