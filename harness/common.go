package main

import (
	"bytes"
	"compress/flate"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/encoding/enum"
	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/event"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

// fullEncoders registers every encoder for reading.
func fullEncoders() []encoding.Encoder {
	return []encoding.Encoder{event.NewEncoder(), position.NewEncoder(position.Oct48), euler.NewEncoder(euler.Raw32), enum.NewEncoder(), float.NewEncoder(float.Raw64)}
}

func writeRec(w WCfg, rec format.Recording) ([]byte, int, error) {
	var b bytes.Buffer
	n, err := rapio.NewWriter(w.Encoders(), w.Compress, &b, w.Time).Write(rec)
	return b.Bytes(), n, err
}

func readRec(b []byte) (format.Recording, int, error) {
	return rapio.NewReader(fullEncoders(), bytes.NewReader(b)).Read()
}

// mustWrite writes a model which the writer has to accept.
func (c *C) mustWrite(w WCfg, m MRec) ([]byte, int) {
	b, n, err := writeRec(w, m.Build())
	if err != nil {
		c.Fail("write-error", "writing a valid recording failed: %v (%v)", err, w)
	}
	return b, n
}

func (c *C) mustRead(b []byte) (MRec, int) {
	rec, n, err := readRec(b)
	if err != nil {
		c.Fail("read-error", "reading a valid file of %d bytes failed: %v", len(b), err)
	}
	m, err := snap(rec)
	if err != nil {
		c.Fail("snap", "recording read from a valid file is broken: %v", err)
	}
	return m, n
}

func (c *C) mustSnap(r format.Recording, what string) MRec {
	m, err := snap(r)
	if err != nil {
		c.Fail("snap", "%s: %v", what, err)
	}
	return m
}

// roundTrip writes, reads and compares with the tolerance oracle.
func (c *C) roundTrip(w WCfg, m MRec) ([]byte, MRec) {
	c.Note("config %v\nrecording %s", w, trunc(m.Canon(), 5000))
	b, _ := c.mustWrite(w, m)
	g, _ := c.mustRead(b)
	if k, err := diffRec(w, m, g, "root"); err != nil {
		c.Fail("rt-"+k, "%v (%v)", err, w)
	}
	c.Count("recordings", m.nodes())
	c.Count("collections", len(m.colls()))
	c.Count("captures", m.numCaps())
	c.Count("file_bytes", len(b))
	return b, g
}

// tryPanic runs f and returns a panic as an error.
func tryPanic(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				panic(a)
			}
			p = r
			buf := make([]byte, 16<<10)
			stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return nil, ""
}

// allocOf measures the bytes allocated by f in a single threaded shard.
func allocOf(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

var errInjected = errors.New("injected fault")

// det makes a model whose serialised form is deterministic: at most one
// entry per metadata block.
func det(m MRec) MRec {
	m.walk(func(r *MRec) {
		r.Meta = oneKey(r.Meta)
		for i := range r.Bins {
			r.Bins[i].Meta = oneKey(r.Bins[i].Meta)
		}
		for i := range r.Refs {
			r.Refs[i].Meta = oneKey(r.Refs[i].Meta)
		}
		for i := range r.Colls {
			for j := range r.Colls[i].Caps {
				if r.Colls[i].Caps[j].M != nil {
					r.Colls[i].Caps[j].M = oneKey(r.Colls[i].Caps[j].M)
				}
			}
		}
	})
	return m
}

func oneKey(m Meta) Meta {
	for _, k := range sortedKeys(m) {
		return Meta{k: oneVal(m[k])}
	}
	return Meta{}
}

func oneVal(v MVal) MVal {
	if v.Code == kBlock {
		v.M = oneKey(v.M)
	}
	if v.Code == kArr+kBlock {
		a := make([]MVal, len(v.A))
		for i := range a {
			a[i] = oneVal(v.A[i])
		}
		v.A = a
	}
	return v
}

func mustEq(c *C, key, what string, want, got MRec) {
	if err := equalModels(want, got); err != nil {
		c.Fail(key, "%s: %v", what, err)
	}
}

var _ = fmt.Sprint

func newInflate(b []byte) io.Reader { return flate.NewReader(bytes.NewReader(b)) }

func newDeflate(o io.Writer) *flate.Writer {
	w, _ := flate.NewWriter(o, 6)
	return w
}
