package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"

	gxio "github.com/vipally/gx/io"
	"vp/mon"
)

// src is a reader with a schedule: odd piece sizes, empty reads, data together
// with the end or the fault, and a fault at a chosen offset.
type src struct {
	data    []byte
	off     int
	max     int // largest piece
	empties int // out of 8: empty reads without error
	dry     int // this many empty reads in a row from dryAt on
	dryAt   int
	joined  bool
	faultAt int // -1: none
	fault   error
	r       *mon.Rand
	reads   int
}

func (s *src) Read(p []byte) (int, error) {
	s.reads++
	end, endErr := len(s.data), io.EOF
	if s.faultAt >= 0 && s.faultAt < end {
		end = s.faultAt
	}
	if s.faultAt >= 0 && s.faultAt <= len(s.data) {
		endErr = s.fault
	}
	if s.off >= end {
		return 0, endErr
	}
	if s.dry > 0 && s.off >= s.dryAt {
		s.dry--
		return 0, nil
	}
	if s.r.Intn(8) < s.empties && s.reads%3 != 0 {
		return 0, nil
	}
	n := s.r.Range(1, s.max)
	if n > len(p) {
		n = len(p)
	}
	if n > end-s.off {
		n = end - s.off
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	if s.joined && s.off == end {
		return n, endErr
	}
	return n, nil
}

// dst is a writer that may fail or write short at a chosen offset.
type dst struct {
	got    []byte
	failAt int // -1: never; byte offset at which the write fails
	short  bool
	noerr  bool // a short write without an error
	whole  bool // an error though everything was taken
	err    error
	failed bool
	after  int // writes after the failure
	writes int
}

func (d *dst) Write(p []byte) (int, error) {
	d.writes++
	if d.failed {
		d.after++
	}
	if d.failAt >= 0 && len(d.got)+len(p) > d.failAt && !d.failed {
		d.failed = true
		n := d.failAt - len(d.got)
		if !d.short {
			n = 0
		}
		if n < 0 {
			n = 0
		}
		d.got = append(d.got, p[:n]...)
		if d.whole {
			d.got = append(d.got, p[n:]...)
			return len(p), d.err
		}
		if d.noerr {
			return n, nil
		}
		return n, d.err
	}
	d.got = append(d.got, p...)
	return len(p), nil
}

// wsrc adds WriteTo, which the copy may use as a short cut.
type wsrc struct{ *src }

func (s wsrc) WriteTo(w io.Writer) (n int64, err error) {
	return io.Copy(w, struct{ io.Reader }{s.src})
}

func copysCase(c *mon.Case) {
	r := c.R
	size := r.Size(5000)
	if r.Chance(1, 12) {
		size = r.Range(30000, 140000)
	}
	s := &src{data: r.Bytes(size), max: []int{1, 7, 100, 4096, 1 << 20}[r.Intn(5)], empties: r.Intn(3), joined: r.Bool(), faultAt: -1, r: r}
	if size > 20000 && s.max < 100 {
		s.max = 4096
	}
	dry := 0
	if r.Chance(1, 25) { // a source that has nothing for long
		dry = []int{20, 99, 101, 300, 5000}[r.Intn(5)]
		s.dry, s.dryAt = dry, r.Intn(size+1)
	}
	n := r.Range(1, 5)
	dsts := make([]*dst, n)
	ws := make([]io.Writer, n)
	faults := 0
	for i := range dsts {
		dsts[i] = &dst{failAt: -1, err: fmt.Errorf("fault of destination %d", i)}
		ws[i] = dsts[i]
	}
	mode := r.Intn(4) // 0,1 none; 2 destination faults; 3 source fault
	if mode == 2 {
		for k := r.Range(1, 2); k > 0 && size > 0; k-- {
			d := dsts[r.Intn(n)]
			d.failAt, d.short, d.noerr = r.Intn(size), r.Bool(), r.Chance(1, 3)
			d.whole = !d.noerr && r.Chance(1, 4)
			if r.Bool() { // the end of file from a destination is a fault as well
				d.err = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, os.ErrClosed, os.ErrDeadlineExceeded}[r.Intn(6)]
			}
		}
	}
	if mode == 3 {
		s.faultAt, s.fault = r.Intn(size+1), errors.New("fault of the source")
		if r.Bool() { // a fault may be one of the well-known errors
			s.fault = []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortWrite, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled}[r.Intn(7)]
		}
	}
	var in io.Reader = s
	kind := "reader"
	switch r.Intn(4) {
	case 0:
		in, kind = wsrc{s}, "reader with WriteTo"
	case 1:
		if mode != 3 {
			in, kind = bytes.NewReader(s.data), "bytes.Reader"
		}
	case 2:
		if mode != 3 {
			in, kind = bytes.NewBuffer(append([]byte(nil), s.data...)), "bytes.Buffer"
		}
	}
	var buf []byte
	var written int64
	var err error
	bufLen := 0
	if r.Bool() {
		bufLen = []int{1, 3, 64, 1000, 4096, 50000}[r.Intn(6)]
		if size > 20000 && bufLen < 64 {
			bufLen = 4096
		}
		if r.Chance(1, 4) {
			buf, bufLen = nil, 0
		} else {
			buf = make([]byte, bufLen)
		}
		written, err = gxio.CopysBuffer(in, buf, ws...)
	} else {
		written, err = gxio.Copys(in, ws...)
	}
	c.Logf("%s of %d bytes (pieces up to %d), %d destination(s), buffer %d, mode %d -> %d, %v", kind, size, s.max, n, bufLen, mode, written, err)
	hitShort, hitErr := false, false
	for i, d := range dsts {
		if d.failed {
			faults++
			if d.noerr {
				hitShort = true
			} else {
				hitErr = true
			}
		}
		if !bytes.HasPrefix(s.data, d.got) {
			c.Failf("destination %d of %d holds %d bytes that are no prefix of the source", i, n, len(d.got))
		}
		if d.after > 0 {
			c.Failf("destination %d was written to %d time(s) after it failed", i, d.after)
		}
	}
	if dry >= 99 && errors.Is(err, io.ErrNoProgress) && faults == 0 { // may be given up, but said so
		c.Count("copies given up", 1)
		return
	}
	switch {
	case faults > 0:
		if err == nil {
			c.Failf("%d destination(s) failed, the copy reported no error", faults)
		}
		ok := false
		for _, d := range dsts {
			ok = ok || d.failed && !d.noerr && errors.Is(err, d.err)
		}
		ok = ok || hitShort && errors.Is(err, io.ErrShortWrite)
		if !ok {
			c.Failf("the copy reported %v, not the fault that occurred (short writes: %v, errors: %v)", err, hitShort, hitErr)
		}
		if written > int64(size) || written < 0 {
			c.Failf("the copy reported %d of %d bytes", written, size)
		}
		c.Count("faulted destinations", faults)
	case s.fault != nil:
		if !errors.Is(err, s.fault) {
			c.Failf("the source failed at byte %d, the copy reported %v", s.faultAt, err)
		}
		for i, d := range dsts {
			if len(d.got) != s.faultAt {
				c.Failf("the source failed at byte %d, destination %d holds %d bytes", s.faultAt, i, len(d.got))
			}
		}
		if written != int64(s.faultAt) {
			c.Failf("the source failed at byte %d, the copy reported %d bytes", s.faultAt, written)
		}
		c.Count("source faults", 1)
	default:
		if err != nil {
			c.Failf("a copy without a fault reported %v", err)
		}
		for i, d := range dsts {
			if !bytes.Equal(d.got, s.data) {
				c.Failf("destination %d of %d holds %d of %d bytes after a copy without error", i, n, len(d.got), size)
			}
		}
		if written != int64(size) {
			c.Failf("a complete copy of %d bytes reported %d", size, written)
		}
		c.Count("complete copies", 1)
	}
	c.Count("bytes copied", size*n)
	c.Seen(mon.HashInit.Str(kind).Add(uint64(size)).Add(uint64(n)).Add(uint64(mode)).Add(uint64(bufLen)).Add(uint64(faults)).Add(uint64(s.max)))
	c.Sample("%s of %d bytes to %d destination(s), buffer %d, faults %d: %d bytes, %v", kind, size, n, bufLen, faults, written, err)
}

// copysFaults enumerates every fault offset of a short transfer.
func copysFaults(c *mon.Case) {
	n := c.Idx%3 + 1
	for size := 1; size <= 24; size++ {
		data := c.R.Bytes(size)
		for piece := 1; piece <= 9; piece += 4 {
			for at := 0; at < size; at++ {
				for which := 0; which < n; which++ {
					for kind := 0; kind < 3; kind++ {
						var ws []io.Writer
						var ds []*dst
						for i := 0; i < n; i++ {
							d := &dst{failAt: -1, err: errors.New("fault")}
							if i == which {
								d.failAt, d.short, d.noerr = at, kind > 0, kind == 2
							}
							ds, ws = append(ds, d), append(ws, d)
						}
						s := &src{data: data, max: piece, joined: at%2 == 0, faultAt: -1, r: c.R}
						w, err := gxio.CopysBuffer(s, make([]byte, piece), ws...)
						if err == nil || kind < 2 && !errors.Is(err, ds[which].err) || kind == 2 && !errors.Is(err, io.ErrShortWrite) {
							c.Failf("%d bytes in pieces of %d, destination %d of %d fails at %d (kind %d): reported %d, %v", size, piece, which, n, at, kind, w, err)
						}
						for i, d := range ds {
							if !bytes.HasPrefix(data, d.got) || d.after > 0 {
								c.Failf("destination %d holds no prefix or was written after its failure", i)
							}
							// a healthy destination has everything up to the failing piece
							if i != which && len(d.got) < at-piece {
								c.Failf("destination %d lost data: %d bytes with the fault at %d", i, len(d.got), at)
							}
						}
						c.Eval(1)
						c.Seen(mon.HashInit.Add(uint64(size*1000 + at)).Add(uint64(piece*100 + which*10 + kind)).Add(uint64(n)))
					}
				}
			}
		}
	}
	c.Sample("every fault offset of transfers of 1..24 bytes to %d destination(s)", n)
}

func init() {
	mon.Register(&mon.Prop{ID: "C16",
		Rule: "random transfers to 1..5 destinations from readers with odd piece sizes, empty reads and data joined with the end, with injected source faults, destination faults and short writes, plus every fault offset of transfers of up to 24 bytes; distinct = distinct (source kind, size, destinations, buffer, faults)",
		Sections: []mon.Section{
			{Name: "faults", Quick: 3, Thorough: 3, CPU: 120, Run: copysFaults},
			{Name: "copy", Quick: 8000, Thorough: 300000, Run: copysCase},
		}})
}
