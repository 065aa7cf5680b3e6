package batch

import (
	"errors"
	"io"
	"time"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
)

// chunkReader hands out its chunks one per Read, then err. With early set it
// returns err together with the last chunk.
type chunkReader struct {
	chunks [][]byte
	err    error
	early  bool
	small  int // smallest buffer offered
	reads  int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.reads == 0 || len(p) < r.small {
		r.small = len(p)
	}
	r.reads++
	if r.reads > 20 {
		sym.Fail("reads-without-end")
	}
	if len(r.chunks) == 0 {
		return 0, r.err
	}
	n := copy(p, r.chunks[0])
	if n < len(r.chunks[0]) {
		r.chunks[0] = r.chunks[0][n:]
		return n, nil
	}
	r.chunks = r.chunks[1:]
	if len(r.chunks) == 0 && r.early {
		return n, r.err
	}
	return n, nil
}

var errRead = errors.New("read failed")

// ZZ_Batch: k operations with arbitrary contents on batches of several capacities.
func ZZ_Batch() {
	caps := []int{0, 1, 4, 65536, 65538}
	b := New(caps[sym.Choose("cap", len(caps))])
	k := sym.Param("k", 3)
	max := sym.Param("n", 2)
	var want []byte
	writes := 0
	var first time.Time
	wrote := func() {
		if writes == 0 {
			first = time.Now()
		}
		writes++
	}
	var before, copied []byte // an earlier copy of the content must stay intact
	for i := 0; i < k; i++ {
		time.Sleep(time.Second)
		switch sym.Choose("op", 6) {
		case 0:
			d := sym.Bytes("append", sym.Choose("n", max+1))
			b.Append(d)
			want = append(want, d...)
			wrote()
			for j := range d {
				d[j] = '!' // the batch owns its bytes
			}
		case 1:
			r := &chunkReader{chunks: [][]byte{}, err: errRead}
			if sym.Choose("eof", 2) == 1 {
				r.err = io.EOF
			}
			n := sym.Choose("n", max+1)
			d := sym.Bytes("read", n)
			if n > 0 {
				r.chunks = append(r.chunks, d)
			}
			r.early = sym.Choose("early", 2) == 1
			got, err := b.ReadOnceFrom(r)
			sym.Assert(got == n, "read-once-count")
			sym.Assert(r.reads == 1, "one-read")
			sym.Assert(r.small >= maxReadSize, "room-for-any-datagram")
			if n == 0 || r.early {
				if r.err == io.EOF {
					sym.Assert(err == nil, "eof-is-no-error")
				} else {
					sym.Assert(err == errRead, "error-reported")
				}
			} else {
				sym.Assert(err == nil, "no-error")
			}
			if n > 0 {
				want = append(want, d...)
				wrote()
			}
		case 2:
			r := &chunkReader{err: errRead}
			if sym.Choose("eof", 2) == 1 {
				r.err = io.EOF
			}
			total := 0
			for c := sym.Choose("chunks", 3); c > 0; c-- {
				d := sym.Bytes("body", sym.Choose("n", max+1))
				total += len(d)
				r.chunks = append(r.chunks, d)
				want = append(want, d...)
			}
			r.early = sym.Choose("early", 2) == 1
			got, err := b.ReadFrom(r)
			sym.Assert(got == int64(total), "read-count")
			if r.err == io.EOF {
				sym.Assert(err == nil, "eof-is-no-error")
			} else {
				sym.Assert(err == errRead, "error-reported")
			}
			if total > 0 {
				wrote()
			}
		case 3:
			b.EnsureNewline()
			if len(want) > 0 && want[len(want)-1] != '\n' {
				want = append(want, '\n')
			}
		case 4:
			b.Reset()
			want = want[:0:0]
			writes = 0
			before, copied = nil, nil
		case 5:
			copied = b.CopyBytes()
			before = append([]byte{}, copied...)
		}
		sym.Assert(b.Size() == len(want), "size")
		sym.Assert(ref.Eq(b.Bytes(), want), "content")
		sym.Assert(b.Writes() == writes, "writes")
		sym.Assert(b.Remaining() >= 0, "remaining")
		if writes == 0 {
			sym.Assert(b.Age() == 0, "age-zero")
		} else {
			sym.Assert(b.Age() == time.Since(first), "age")
			sym.Reach("aged")
		}
	}
	sym.Assert(ref.Eq(copied, before), "copy-is-independent")
	sym.Observe("content", b.Bytes(), b.Writes())
}

// ZZ_BatchLarge: full-size reads at every growth step; a few bytes are arbitrary.
func ZZ_BatchLarge() {
	caps := []int{0, 10, 65536, 70000}
	b := New(caps[sym.Choose("cap", len(caps))])
	pre := sym.Bytes("pre", sym.Choose("pren", 3))
	b.Append(pre)
	size := []int{65535, 65536, 65537, 140000}[sym.Choose("size", 4)]
	big := make([]byte, size)
	marks := []int{0, 1, 65534, 65535, 65536, size - 2, size - 1}
	m := sym.Bytes("marks", len(marks))
	for i, p := range marks {
		if p < size {
			big[p] = m[i]
		}
	}
	if sym.Choose("how", 2) == 0 {
		n, err := b.ReadFrom(&chunkReader{chunks: [][]byte{big}, err: io.EOF})
		sym.Assert(n == int64(size), "read-count")
		sym.Assert(err == nil, "no-error")
	} else {
		b.Append(big)
	}
	tail := sym.Bytes("tail", 2)
	b.Append(tail)
	sym.Assert(b.Size() == len(pre)+size+2, "size")
	out := b.Bytes()
	sym.Assert(ref.Eq(out[:len(pre)], pre), "front")
	for _, p := range marks {
		if p < size {
			sym.Assert(out[len(pre)+p] == big[p], "middle")
		}
	}
	sym.Assert(ref.Eq(out[len(pre)+size:], tail), "end")
	sym.Reach("large")
	sym.Observe("size", b.Size(), b.Writes())
}
