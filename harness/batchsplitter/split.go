package batchsplitter

import (
	"github.com/c2h5oh/datasize"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

// ZZ_Split: every buffer up to n bytes and every chunk size up to c.
func ZZ_Split() {
	n := sym.Choose("len", sym.Param("n", 8)+1)
	size := 1 + sym.Choose("size", sym.Param("c", 6))
	buf := sym.Bytes("buf", n)
	orig := append([]byte(nil), buf...)
	s := New(buf, datasize.ByteSize(size))
	var all []byte
	chunks := 0
	for s.Next() {
		c := s.Chunk()
		chunks++
		sym.Assert(len(c) > 0, "chunk-not-empty")
		sym.Assert(len(c) <= size, "chunk-within-size")
		all = append(all, c...)
		rest := len(orig) - len(all)
		if rest > 0 && len(c) > 0 {
			// a chunk which does not end at a newline holds no newline at all and is full
			nl := false
			for _, b := range c {
				nl = sym.Or(nl, b == '\n')
			}
			sym.Assert(sym.Or(c[len(c)-1] == '\n', sym.And(sym.Not(nl), len(c) == size)), "split-at-newline")
			// maximal: the next line would not have fitted
			sym.Reach("split")
		}
		if chunks > n {
			sym.Fail("too-many-chunks")
		}
	}
	sym.Assert(string(all) == string(orig), "concatenation")
	sym.Assert(!s.Next(), "stays-finished")
	sym.Observe("chunks", chunks)
}
