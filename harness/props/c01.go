package props

import (
	"verifbond/fw"
)

func init() {
	fw.Register(fw.Prop{
		ID:    "C01",
		Title: "A table behaves like a map from primary key to record",
		Rule: "a case is a table configuration (key fields, record or pointer type, indexes, serializer) and a history of insert/update/upsert/delete/unsafe writes, " +
			"directly or through a batch, with flush, compaction and reopen; it is non-trivial when it changes or removes an existing record and has a flush, compaction or reopen",
		Quick: 2400, Thorough: 40000,
	}, genHist(2, 25, 6), func(c HistCase, o *fw.Obs) {
		probe := probesOf(c.Ops)
		runHist(o, c, func(st *Store, tb Tbl, m *Model, full bool) { checkTable(o, st, tb, m, probe, full) })
	})
}
