package batchsplitter

import (
	"strings"

	"github.com/c2h5oh/datasize"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

// ZZ_SplitLarge: as much as the components really send, with newlines at
// arbitrary places around the limit.
func ZZ_SplitLarge() {
	size := sym.Param("size", 65536)
	lead := []int{1, size / 2, size - 1, size, size + 1}[sym.Choose("lead", 5)]
	buf := []byte(strings.Repeat("a", lead-1) + "\n")
	for len(buf) < size-3 {
		buf = append(buf, strings.Repeat("b", 999)+"\n"...)
	}
	if len(buf) > size+2 && lead < size {
		buf = buf[:size-3]
	}
	buf = append(buf, sym.Bytes("edge", 4)...)
	buf = append(buf, strings.Repeat("c", 2*size)...)
	buf = append(buf, "\nend"...)
	orig := string(buf)
	s := New(buf, datasize.ByteSize(size))
	at := 0
	for s.Next() {
		c := string(s.Chunk())
		sym.Assert(len(c) > 0 && len(c) <= size, "chunk-within-size")
		sym.Assert(at+len(c) <= len(orig) && orig[at:at+len(c)] == c, "consecutive")
		if rest := len(orig) - at; rest <= size {
			sym.Assert(len(c) == rest, "last-chunk")
		} else {
			// up to the last newline that fits
			end := at + size
			for end > at && orig[end-1] != '\n' {
				end--
			}
			if end == at {
				end = at + size
			}
			sym.Assert(len(c) == end-at, "split-at-newline")
		}
		at += len(c)
	}
	sym.Assert(at == len(orig), "concatenation")
	sym.Reach("split")
}
