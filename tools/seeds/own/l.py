seed("c07-first-amount", "C07", [(P, "		if newCurrency || firstAmount {\n			value.Currency.Precision = shift\n", "		if newCurrency || firstAmount && shift > 1 {\n			value.Currency.Precision = shift\n")],
 "a commodity known by its name only, whose first amount has one decimal", "it has no decimals", r'''
func check() {
	l := load("P 2020-01-01 X 2 EUR\n2020-01-01 x\n  A  1.5 X\n  B\n")
	eq("precision", cur(l, "X").Precision, 1)
}
''')
