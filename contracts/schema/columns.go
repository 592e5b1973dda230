package schema

// ---- column names (C28) ----

func colNames(c Columns, r []string, n int) bool {
	return len(r) == n && gvAll(func(i int) bool { return gvImp(0 <= i && i < n, r[i] == c[i].Name) })
}

//govc:contract (Columns).Names
//govc:prop C28
func spColumnsNames(c Columns, r []string) {
	gvReq(gvAll(func(i int) bool { return gvImp(0 <= i && i < len(c), c[i] != nil) }))
	gvEns("the name of every column, in order", colNames(c, r, len(c)))
}

//govc:loop (Columns).Names
func lpColumnsNames(c Columns, list []string, rangeidx int) bool { return colNames(c, list, rangeidx) }
