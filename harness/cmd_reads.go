package main

import (
	"fmt"
	"math/rand"
)

func init() { commands["reads"] = cmdReads }

// ReadFile is a file as Reads.tla has it
type ReadFile struct {
	Size    int          `json:"size"`
	Tail    int          `json:"tail"`
	Comp    int          `json:"comp"`
	Block   int          `json:"block"`
	Stride  int          `json:"stride"`
	Schema  []string     `json:"schema"`
	Stripes []readStripe `json:"stripes"`
}

type readStripe struct {
	First   int          `json:"first"`
	Rows    int          `json:"rows"`
	Foot    []int        `json:"foot"`
	Dict    []bool       `json:"dict"`
	Streams []readStream `json:"streams"`
}

type readStream struct {
	Col     int     `json:"col"`
	Kind    int     `json:"kind"`
	From    int     `json:"from"`
	To      int     `json:"to"`
	Chunks  []int   `json:"chunks"`
	Entries [][]int `json:"entries"`
	Vals    []int   `json:"vals"` // values before the row of every entry
}

// ReadTrace is validated by ReadsTrace
type ReadTrace struct {
	Id     string    `json:"id"`
	File   *ReadFile `json:"file"`
	Events []Ev      `json:"events"`
	Info   string    `json:"info"`
}

func readFileOf(d *Data, data []byte) (*ReadFile, error) {
	m, err := parseOrc(data)
	if err != nil {
		return nil, err
	}
	f := &ReadFile{Size: len(data), Tail: m.PsLen + m.FootLen + m.MetaLen + 1, Comp: m.Comp, Block: m.Block, Stride: m.Stride,
		Schema: []string{}, Stripes: []readStripe{}}
	if f.Stride < 0 {
		f.Stride = 0
	}
	for _, c := range d.Cols {
		f.Schema = append(f.Schema, c.Kind)
	}
	first := 0
	for _, s := range m.Stripes {
		x := readStripe{First: first, Rows: s.Rows, Foot: []int{s.Off + s.Ilen + s.Dlen, s.Off + s.Ilen + s.Dlen + s.Flen}, Dict: []bool{}}
		first += s.Rows
		for _, e := range s.Encs {
			x.Dict = append(x.Dict, e.Kind == 3)
		}
		for _, st := range s.Streams {
			y := readStream{Col: st.Col, Kind: st.Kind, From: st.offset, To: st.offset + st.Len, Chunks: []int{}, Entries: [][]int{}, Vals: []int{}}
			if st.Kind == 6 {
				for _, e := range parseIndex(st.Area.bytes) {
					y.Entries = append(y.Entries, append([]int{}, e.Pos...))
				}
			} else {
				for _, at := range st.Area.offs {
					y.Chunks = append(y.Chunks, st.offset+at)
				}
			}
			vals := 0
			for r := 0; r < s.Rows && f.Stride > 0; r++ {
				if r%f.Stride == 0 {
					y.Vals = append(y.Vals, vals)
				}
				from := st.Col
				if st.Kind == 0 { // a bit for every row that is not null above
					from = d.Cols[st.Col].Parent
				}
				if from < 0 || d.Cells[from][x.First+r][0] != 0 {
					vals++
				}
			}
			x.Streams = append(x.Streams, y)
		}
		f.Stripes = append(f.Stripes, x)
	}
	return f, nil
}

// pieces of the file that were read: what one handle read on and on is one piece for every area it is in
func pieces(es []FsEvent, f *ReadFile) (out []Ev) {
	edge := map[int]bool{}
	for _, s := range f.Stripes {
		edge[s.Foot[0]], edge[s.Foot[1]] = true, true
		for _, x := range s.Streams {
			edge[x.From], edge[x.To] = true, true
		}
	}
	type run struct{ from, to int64 }
	open := map[int]*run{}
	var order []*run
	for _, e := range es {
		if e.Op != "read" || e.N == 0 {
			continue
		}
		r := open[e.H]
		if r == nil || r.to != e.At {
			r = &run{e.At, e.At}
			open[e.H] = r
			order = append(order, r)
		}
		r.to += int64(e.N)
	}
	for _, r := range order {
		from := int(r.from)
		for to := from + 1; to <= int(r.to); to++ {
			if to == int(r.to) || edge[to] {
				out = append(out, Ev{"op": "read", "from": from, "to": to})
				from = to
			}
		}
	}
	return
}

func cmdReads(p *Plan) interface{} {
	var a SessArg
	p.arg(&a)
	out := []*ReadTrace{}
	type made struct {
		data []byte
		file *ReadFile
	}
	files := map[int]*made{}
	for n, q := range a.Seqs {
		if !p.mine(q.F) {
			continue
		}
		l := a.Layouts[q.F-1]
		t := &ReadTrace{Id: fmt.Sprintf("reads %d of file %d", n, l.Case.Seed), Events: []Ev{}, Info: toJson(l.Case)}
		out = append(out, t)
		f := files[q.F]
		if f == nil {
			d, data, _, ok := l.Case.make()
			file, err := (*ReadFile)(nil), error(nil)
			if ok {
				file, err = readFileOf(d, data)
			}
			if !ok || err != nil {
				t.File = &ReadFile{Schema: []string{}, Stripes: []readStripe{}}
				t.Events = append(t.Events, Ev{"op": "trouble", "what": fmt.Sprint("writing: ", err)})
				continue
			}
			f = &made{data, file}
			files[q.F] = f
		}
		t.File = f.file
		rnd := rand.New(rand.NewSource(l.Case.Seed*19 + int64(n)))
		s := newSession(NewDisk(f.data), rnd)
		at, ev := 0, 0
		flush := func() {
			for _, e := range s.evs[ev:] {
				delete(e, "cols")
				t.Events = append(t.Events, e)
			}
			ev = len(s.evs)
			t.Events = append(t.Events, pieces(s.disk.events[at:], f.file)...)
			at = len(s.disk.events)
		}
		s.open()
		flush()
		rs := map[int]bool{}
		for _, o := range q.Ops {
			s.do(Op{Op: o.Op, R: o.R, Cap: o.Cap, K: o.K, Inc: projection(l.Case, o.Inc)})
			flush()
			rs[o.R] = true
		}
		for r := 0; r < 8; r++ {
			for step := 0; a.Drain && rs[r] && step < 200 && !s.broken; step++ {
				was := len(s.evs)
				s.do(Op{Op: "next", R: r, Cap: 2 + l.Case.Rows/7})
				if len(s.evs) == was {
					break
				}
				e := s.evs[len(s.evs)-1]
				flush()
				if e["ok"] != true || e["end"] == true {
					break
				}
			}
		}
		s.closeAll()
		flush()
	}
	return out
}
