package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

type Ev map[string]interface{}

// guard runs f and turns panics and hangs into events
func guard(f func()) (trouble string) {
	if atomic.LoadInt32(&hangs) > 1 { // enough is known, and what hangs may be eating the machine
		return "hang, not tried again"
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				lastPanic = fmt.Sprintf("%v\n%s", p, debug.Stack())
				done <- fmt.Sprintf("panic: %v", p)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case t := <-done:
		return t
	case <-time.After(30 * time.Second):
		atomic.AddInt32(&hangs, 1)
		return "hang"
	}
}

var (
	lastPanic string
	hangs     int32
)

// writeFile writes all rows with the given batch lengths (0 allowed), reusing nothing
func writeFile(d *Data, o WOpts, batches []int, disk *Disk) (evs []Ev, ok bool) {
	return writeFileFs(d, o, batches, disk, false)
}

// writeFileFs records file operations too
func writeFileFs(d *Data, o WOpts, batches []int, disk *Disk, fs bool) (evs []Ev, ok bool) {
	ok = true
	was := 0
	at0 := len(disk.events)
	add := func(e Ev) {
		e["flt"] = disk.faults > was
		was = disk.faults
		if fs {
			evs = append(evs, fsEvents(disk.events[at0:])...)
			at0 = len(disk.events)
		}
		evs = append(evs, e)
	}
	schema := schemaFromCols(d.Cols)
	var w orc.Writer
	var err error
	if t := guard(func() {
		if disk.path != "" {
			w, err = orc.NewOSFileWriter(disk.path, schema, o.opts())
		} else {
			w, err = orc.VerifNewWriter(schema, o.opts(), disk.Open())
		}
	}); t != "" {
		add(Ev{"op": "trouble", "what": t})
		return evs, false
	}
	add(Ev{"op": "wcreate", "ok": err == nil})
	if err != nil {
		return evs, false
	}
	at := 0
	var kept *api.ColumnVector
	for _, b := range batches {
		vec := ownBytes(d.vector(at, at+b))
		if kept != nil { // the caller's one vector, filled again
			refill(kept, vec)
			vec = kept
		} else if disk.reuse {
			kept = vec
		}
		if t := guard(func() { err = w.Write(vec) }); t != "" {
			add(Ev{"op": "trouble", "what": t})
			return evs, false
		}
		add(Ev{"op": "write", "n": b, "ok": err == nil, "at": len(disk.data)})
		if err != nil {
			ok = false
		}
		scribble(vec)
		at += b
	}
	if t := guard(func() { err = w.Close() }); t != "" {
		add(Ev{"op": "trouble", "what": t})
		return evs, false
	}
	add(Ev{"op": "wclose", "ok": err == nil})
	return evs, ok && err == nil
}

// ownBytes copies byte slices, that a batch may be overwritten
func ownBytes(v *api.ColumnVector) *api.ColumnVector {
	for i := range v.Vector {
		if b, ok := v.Vector[i].V.([]byte); ok {
			v.Vector[i].V = append([]byte{}, b...)
		}
	}
	for _, c := range v.Children {
		ownBytes(c)
	}
	return v
}

func refill(v, from *api.ColumnVector) {
	if v.Vector != nil || from.Vector != nil {
		v.Vector = append(v.Vector[:0], from.Vector...)
	}
	for i := range v.Children {
		refill(v.Children[i], from.Children[i])
	}
}

// scribble overwrites a batch after Write returned: a caller may reuse it
func scribble(v *api.ColumnVector) {
	for i := range v.Vector {
		if b, ok := v.Vector[i].V.([]byte); ok {
			for j := range b {
				b[j] ^= 0x5a
			}
		}
		v.Vector[i] = api.Value{Null: false, V: nil}
	}
	for _, c := range v.Children {
		scribble(c)
	}
}

func splitRows(rnd *rand.Rand, n int) (b []int) {
	switch rnd.Intn(4) {
	case 0:
		return []int{n}
	case 1:
		k := 1 + rnd.Intn(50)
		for n > 0 {
			if k > n {
				k = n
			}
			b = append(b, k)
			n -= k
		}
		return
	}
	for n > 0 {
		k := rnd.Intn(n + 1)
		if rnd.Intn(3) == 0 {
			k = rnd.Intn(4)
			if k > n {
				k = n
			}
		}
		b = append(b, k)
		n -= k
	}
	return
}

// Op of a reading session; generated by TLC or at random
type Op struct {
	Op  string `json:"op"` // create next seek close closereader
	R   int    `json:"r"`
	Cap int    `json:"cap"`
	K   int    `json:"k"`
	Inc []int  `json:"inc"`
}

type brState struct {
	br  orc.BatchReader
	inc []int
	vec *api.ColumnVector
	cap int
	top *api.TypeDescription
}

// Session runs operations against a file and records events
type Session struct {
	disk   *Disk
	r      orc.Reader
	brs    map[int]*brState
	evs    []Ev
	broken bool
	// the reader is closed, batch readers need not be
	rclosed bool
	fs      bool // record file operations too
	fsAt    int
	was     int
	kinds   map[int]string
	// reuse vectors between calls
	reuse bool
	rnd   *rand.Rand
	// say how much memory calls take, and take errors of CreateVector for what a reader may say
	meter bool
	mb    int
}

func (s *Session) add(e Ev) {
	if s.meter {
		e["mb"], s.mb = s.mb, 0
	}
	e["flt"] = s.disk.faults > s.was
	s.was = s.disk.faults
	if s.fs {
		s.evs = append(s.evs, fsEvents(s.disk.events[s.fsAt:])...)
		s.fsAt = len(s.disk.events)
	}
	s.evs = append(s.evs, e)
}

// fsEvents: operations of a call, a handle's uses in a row once
func fsEvents(es []FsEvent) (out []Ev) {
	used := map[int]bool{}
	for _, e := range es {
		switch e.Op {
		case "open", "clone", "close":
			out = append(out, Ev{"op": "fs", "what": e.Op, "h": e.H, "from": e.From, "fail": e.Err})
			delete(used, e.H)
		default:
			if !used[e.H] {
				used[e.H] = true
				out = append(out, Ev{"op": "fs", "what": "use", "h": e.H, "from": 0, "fail": false})
			}
		}
	}
	return
}

func (s *Session) try(f func()) bool {
	var before, after runtime.MemStats
	if s.meter {
		runtime.ReadMemStats(&before)
	}
	t := guard(f)
	if s.meter {
		runtime.ReadMemStats(&after)
		s.mb += int((after.TotalAlloc - before.TotalAlloc) >> 20)
	}
	if t != "" {
		s.add(Ev{"op": "trouble", "what": t})
		s.broken = true
		return false
	}
	return true
}

func newSession(disk *Disk, rnd *rand.Rand) *Session {
	return &Session{disk: disk, brs: map[int]*brState{}, reuse: rnd.Intn(2) == 0, rnd: rnd}
}

func (s *Session) open() bool {
	var err error
	if !s.try(func() {
		if s.disk.path != "" {
			s.r, err = orc.NewOSFileReader(s.disk.path)
		} else {
			s.r, err = orc.VerifNewReader(s.disk.Open())
		}
	}) {
		return false
	}
	if err != nil {
		s.r = nil
		s.add(Ev{"op": "open", "ok": false, "rows": 0, "err": fmt.Sprint(err)})
		return false
	}
	s.add(Ev{"op": "open", "ok": true, "rows": int(s.r.NumberOfRows())})
	s.kinds = map[int]string{}
	for _, c := range colsFromSchema(s.r.GetSchema()) {
		s.kinds[c.Id] = c.Kind
	}
	return true
}

func findTop(td *api.TypeDescription, opt *api.BatchOption) *api.TypeDescription {
	if opt.IsInclude(td.Id) {
		return td
	}
	for _, c := range td.Children {
		if t := findTop(c, opt); t != nil {
			return t
		}
	}
	return nil
}

func (s *Session) vector(b *brState, rows int) *api.ColumnVector {
	opt := &api.BatchOption{RowSize: rows, Includes: u32s(b.inc)}
	top := findTop(s.r.GetSchema(), opt)
	var vec *api.ColumnVector
	var err error
	if !s.try(func() { vec, err = top.CreateVector(opt) }) {
		return nil
	}
	if err != nil && s.meter {
		s.add(Ev{"op": "vector", "r": 0, "ok": false, "err": fmt.Sprint(err)})
		return nil
	}
	if err != nil {
		s.add(Ev{"op": "trouble", "what": fmt.Sprint("CreateVector: ", err)})
		s.broken = true
		return nil
	}
	return vec
}

func u32s(a []int) (u []uint32) {
	for _, x := range a {
		u = append(u, uint32(x))
	}
	return
}

func (s *Session) do(op Op) {
	if s.broken || s.r == nil {
		return
	}
	switch op.Op {
	case "create":
		var br orc.BatchReader
		var err error
		opt := &api.BatchOption{RowSize: 1 + op.Cap, Includes: u32s(op.Inc)}
		if !s.try(func() { br, err = s.r.CreateBatchReader(opt) }) {
			return
		}
		inc := op.Inc
		if inc == nil {
			inc = []int{}
		}
		e := Ev{"op": "create", "r": op.R, "inc": inc, "ok": err == nil}
		if err != nil {
			e["err"] = fmt.Sprint(err)
		} else {
			s.brs[op.R] = &brState{br: br, inc: inc}
		}
		s.add(e)
	case "next":
		b := s.brs[op.R]
		if b == nil {
			return
		}
		vec := b.vec
		if vec == nil || b.cap != op.Cap || !s.reuse {
			vec = s.vector(b, op.Cap)
			if vec == nil {
				return
			}
			b.vec, b.cap = vec, op.Cap
		}
		var end bool
		var err error
		if !s.try(func() { end, err = b.br.Next(vec) }) {
			return
		}
		e := Ev{"op": "next", "r": op.R, "cap": op.Cap, "ok": err == nil, "end": end}
		if err != nil {
			e["err"] = fmt.Sprint(err)
		} else {
			e["n"] = vec.Len()
			e["cols"] = s.batchCells(vec)
		}
		s.add(e)
	case "seek":
		b := s.brs[op.R]
		if b == nil {
			return
		}
		var err error
		if !s.try(func() { err = b.br.Seek(uint64(op.K)) }) {
			return
		}
		e := Ev{"op": "seek", "r": op.R, "k": op.K, "ok": err == nil}
		if err != nil {
			e["err"] = fmt.Sprint(err)
		}
		s.add(e)
	case "close":
		b := s.brs[op.R]
		if b == nil {
			return
		}
		delete(s.brs, op.R)
		if !s.try(func() { b.br.Close() }) {
			return
		}
		s.add(Ev{"op": "close", "r": op.R})
	case "closereader":
		if s.rclosed {
			return
		}
		s.rclosed = true
		r := s.r
		if !s.try(func() { r.Close() }) {
			return
		}
		s.add(Ev{"op": "closereader"})
	}
}

// batchCells: [[column, cells], ...] of columns that have a vector
func (s *Session) batchCells(vec *api.ColumnVector) [][]interface{} {
	out := [][]interface{}{}
	var walk func(v *api.ColumnVector)
	walk = func(v *api.ColumnVector) {
		kind := s.kinds[int(v.Id)]
		if kind != "struct" || v.Vector != nil {
			cells := make([]Cell, len(v.Vector))
			for i, x := range v.Vector {
				cells[i] = toCell(kind, x)
			}
			out = append(out, []interface{}{int(v.Id), cells})
		}
		for _, c := range v.Children {
			walk(c)
		}
	}
	walk(vec)
	return out
}

// closeAll closes everything that is open
func (s *Session) closeAll() {
	for r := 0; r < 64; r++ {
		if s.brs[r] != nil {
			s.do(Op{Op: "close", R: r})
		}
	}
	s.do(Op{Op: "closereader"})
}
