package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
)

func init() {
	commands["layouts"] = cmdLayouts
	commands["sessions"] = cmdSessions
}

// Layout is what OrcGen needs to know of a file
type Layout struct {
	Case    Case   `json:"case"`
	Stripes []int  `json:"stripes"`
	Stride  int    `json:"stride"`
	Incs    int    `json:"incs"`
	Readers int    `json:"readers"`
	Depth   int    `json:"depth"`
	Small   bool   `json:"small"`
	Sim     bool   `json:"sim"`
	Bad     string `json:"bad"`
}

// projection j of a case: 0 is everything
func projection(c Case, j int) []int {
	if j == 0 {
		return nil
	}
	rnd := rand.New(rand.NewSource(c.Seed*31 + int64(j)))
	tops := []int{}
	var find func(id int)
	find = func(id int) {
		tops = append(tops, id)
		col := c.Cols[id]
		if col.Kind == "struct" && !col.Nullable {
			for _, ch := range col.Children {
				find(ch)
			}
		}
	}
	find(0)
	top := 0
	if rnd.Intn(2) == 0 {
		top = tops[rnd.Intn(len(tops))]
	}
	var inc []int
	var pick func(id int)
	pick = func(id int) {
		inc = append(inc, id)
		col := c.Cols[id]
		if col.Kind != "struct" {
			return
		}
		some := col.Nullable && rnd.Intn(4) == 0
		must := col.Children[rnd.Intn(len(col.Children))]
		for _, ch := range col.Children {
			if ch == must && !some || rnd.Intn(2) == 0 {
				pick(ch)
			}
		}
	}
	pick(top)
	// a set: in any order, a column may be named again
	if rnd.Intn(2) == 0 {
		rnd.Shuffle(len(inc), func(i, j int) { inc[i], inc[j] = inc[j], inc[i] })
	}
	if rnd.Intn(5) == 0 {
		inc = append(inc, inc[rnd.Intn(len(inc))])
	}
	return inc
}

func (c Case) data() (*Data, *rand.Rand) {
	rnd := rand.New(rand.NewSource(c.Seed + 77))
	prof := c.Prof
	prof.nulls = c.Nulls
	return newData(c.Cols, c.Rows, rnd, prof), rnd
}

// make writes the file of a case
func (c Case) make() (d *Data, data []byte, evs []Ev, ok bool) {
	d, _ = c.data()
	if c.Plan != nil {
		evs = []Ev{{"op": "wcreate", "ok": true, "flt": false}, {"op": "write", "n": c.Rows, "ok": true, "flt": false, "at": 0},
			{"op": "wclose", "ok": true, "flt": false}}
		return d, assemble(d, c.Plan, c.Seed), evs, true
	}
	disk := NewDisk(nil)
	disk.record = false
	evs, ok = writeFile(d, c.Opts, c.Batches, disk)
	return d, disk.data, evs, ok
}

func (c Case) layout() Layout {
	l := Layout{Case: c, Stripes: []int{}, Incs: 5, Readers: 1, Depth: 8}
	_, data, evs, ok := c.make()
	if !ok {
		l.Bad = toJson(evs)
		return l
	}
	m, err := parseOrc(data)
	if err != nil {
		l.Bad = err.Error()
		return l
	}
	n := 0
	for _, s := range m.Stripes {
		l.Stripes = append(l.Stripes, s.Rows)
		n += s.Rows
	}
	if n != c.Rows {
		l.Bad = fmt.Sprintf("%d rows in stripes, %d written", n, c.Rows)
	}
	if c.Opts.WriteIndex {
		l.Stride = c.Opts.Stride
	}
	if c.Plan != nil {
		l.Stride = c.Plan.Head.Stride
	}
	return l
}

type LayoutArg struct {
	Mode string `json:"mode"` // small, kinds, indexed, mixed
}

func kindCols(kind, enc string, nullable bool) []Col {
	return []Col{
		{Id: 0, Kind: "struct", Enc: "direct", Children: []int{1, 2}, Names: []string{"a", "b"}, Parent: -1},
		{Id: 1, Kind: kind, Enc: enc, Nullable: nullable, Children: []int{}, Names: []string{}, Parent: 0},
		{Id: 2, Kind: "int", Enc: "directv2", Nullable: !nullable, Children: []int{}, Names: []string{}, Parent: 0}}
}

type kindEnc struct{ kind, enc string }

var kindEncs = []kindEnc{{"boolean", "direct"}, {"byte", "direct"}, {"short", "directv2"}, {"int", "directv2"}, {"long", "directv2"},
	{"float", "direct"}, {"double", "direct"}, {"string", "directv2"}, {"string", "dictv2"}, {"char", "directv2"}, {"char", "dictv2"},
	{"varchar", "directv2"}, {"varchar", "dictv2"}, {"binary", "directv2"}, {"date", "directv2"}, {"timestamp", "directv2"},
	{"decimal", "directv2"}}

func cmdLayouts(p *Plan) interface{} {
	var a LayoutArg
	p.arg(&a)
	var out []Layout
	switch a.Mode {
	case "small": // six rows in stripes of 2, 3 and 1; every history is run
		for k := 0; k < p.Count; k++ {
			if !p.mine(k) {
				continue
			}
			seed := p.Seed*7919 + int64(k)
			rnd := rand.New(rand.NewSource(seed))
			ke := kindEncs[rnd.Intn(len(kindEncs))]
			c := Case{Seed: seed, Cols: kindCols(ke.kind, ke.enc, rnd.Intn(3) > 0), Rows: 6,
				Opts:    WOpts{Compression: "zlib", ChunkSize: 64, StripeSize: 1, WriteIndex: k%2 == 0, Stride: 1 + rnd.Intn(3)},
				Batches: [][]int{{2, 3, 1}, {3, 3}, {1, 4, 1}, {6}}[rnd.Intn(4)], Prof: Profile{ShortStr: true}}
			if rnd.Intn(2) == 0 {
				c.Opts.Compression = "none"
			}
			l := c.layout()
			l.Small, l.Incs, l.Depth = true, 0, p.Rows
			out = append(out, l)
		}
	default:
		for k := 0; k < p.Count; k++ {
			if !p.mine(k) {
				continue
			}
			seed := p.Seed*7919 + int64(k) + 500000
			rnd := rand.New(rand.NewSource(seed))
			c := Case{Seed: seed, Opts: randomOpts(rnd), Rows: 1 + rnd.Intn(p.Rows), Prof: Profile{ShortStr: true}}
			if a.Mode == "kinds" || a.Mode == "indexed" {
				ke := kindEncs[k%len(kindEncs)]
				c.Cols = kindCols(ke.kind, ke.enc, rnd.Intn(3) > 0)
			} else if a.Mode == "values" {
				c.Cols, c.Prof.Wide = randomCols(rnd, 1+rnd.Intn(6), []string{"date", "timestamp", "decimal"}), true
			} else {
				c.Cols, c.Rows = mixedCols(rnd, k, 1+rnd.Intn(10), c.Rows)
			}
			if rnd.Intn(4) > 0 { // several stripes
				c.Opts.StripeSize = 1 + rnd.Intn(c.Rows*len(c.Cols)*4)
			}
			if rnd.Intn(3) > 0 || a.Mode == "indexed" {
				c.Opts.WriteIndex, c.Opts.Stride = true, 1+rnd.Intn(1+c.Rows/2)
			}
			c.Batches = splitRows(rnd, c.Rows)
			if c.Opts.StripeSize < 1000 && c.Rows > 60 {
				c.Batches = nil
				for n := c.Rows; n > 0; {
					b := 1 + rnd.Intn(c.Rows/3)
					if b > n {
						b = n
					}
					c.Batches = append(c.Batches, b)
					n -= b
				}
			}
			l := c.layout()
			l.Sim, l.Readers, l.Depth = true, 1+rnd.Intn(4), 6+rnd.Intn(14)
			out = append(out, l)
		}
	}
	return out
}

// scratch is a folder of this process for real files
func scratch(p *Plan) string {
	if scratchDir == "" {
		d, err := ioutil.TempDir(filepath.Dir(p.Out), "scratch")
		if err != nil {
			fatal(err)
		}
		scratchDir = d
	}
	return scratchDir
}

var scratchDir string

type Seq struct {
	F   int  `json:"f"`
	Ops []Op `json:"ops"`
	N   int  `json:"-"`
}

type SessArg struct {
	Layouts []Layout `json:"layouts"`
	Seqs    []struct {
		F   int `json:"f"`
		Ops []struct {
			Op  string `json:"op"`
			R   int    `json:"r"`
			Cap int    `json:"cap"`
			K   int    `json:"k"`
			Inc int    `json:"inc"`
		} `json:"ops"`
	} `json:"seqs"`
	Drain  bool `json:"drain"`
	Os     bool `json:"os"`     // real files
	Shorts bool `json:"shorts"` // files that return fewer bytes than asked for
}

func cmdSessions(p *Plan) interface{} {
	var a SessArg
	p.arg(&a)
	type made struct {
		d    *Data
		data []byte
		evs  []Ev
		ok   bool
	}
	files := map[int]*made{}
	written := map[int]bool{}
	if a.Os {
		defer os.RemoveAll(scratch(p))
	}
	var out []*Trace
	for n, q := range a.Seqs {
		if !p.mine(q.F) {
			continue
		}
		l := a.Layouts[q.F-1]
		f := files[q.F]
		if f == nil {
			f = &made{}
			f.d, f.data, f.evs, f.ok = l.Case.make()
			files[q.F] = f
		}
		t := newTrace(fmt.Sprintf("session %d of file %d", n, l.Case.Seed), f.d, l.Case)
		t.Events = append(t.Events, f.evs...)
		out = append(out, t)
		if !f.ok {
			continue
		}
		rnd := rand.New(rand.NewSource(l.Case.Seed*17 + int64(n)))
		s := newSession(NewDisk(f.data), rnd)
		s.disk.record = false
		if a.Os {
			s.disk.path = scratch(p) + fmt.Sprintf("/%d.orc", q.F)
			if !written[q.F] {
				written[q.F] = true
				if rnd.Intn(2) == 0 { // an older file, longer than the one to come
					old := append(append([]byte(nil), f.data...), make([]byte, 1+rnd.Intn(300))...)
					if err := ioutil.WriteFile(s.disk.path, append(old, f.data...), 0644); err != nil {
						panic(err)
					}
				}
				evs, ok := writeFile(f.d, l.Case.Opts, l.Case.Batches, &Disk{path: s.disk.path})
				if !ok {
					t.Events = evs
					continue
				}
				if b, err := ioutil.ReadFile(s.disk.path); err != nil || !bytes.Equal(b, f.data) {
					t.Events = append(t.Events, Ev{"op": "trouble", "what": fmt.Sprint("another file on disk: ", err), "flt": false})
					continue
				}
			}
		}
		if a.Shorts {
			s.disk.maxRead = 1 + rnd.Intn(40)
			s.disk.rnd = rnd.Intn
			s.disk.eofWith = rnd.Intn(2) == 0
		}
		s.open()
		rs := map[int]bool{}
		for _, o := range q.Ops {
			s.do(Op{Op: o.Op, R: o.R, Cap: o.Cap, K: o.K, Inc: projection(l.Case, o.Inc)})
			rs[o.R] = true
		}
		if a.Drain { // read the rest: a wrong position may show late
			for r := 0; r < 8; r++ {
				if rs[r] {
					s.drain(r, 2+l.Case.Rows/3)
				}
			}
		}
		s.closeAll()
		t.Events = append(t.Events, s.evs...)
	}
	return out
}

func (s *Session) drain(r, cap int) {
	for step := 0; step < 400 && !s.broken; step++ {
		n := len(s.evs)
		s.do(Op{Op: "next", R: r, Cap: cap})
		if len(s.evs) == n {
			return
		}
		e := s.evs[len(s.evs)-1]
		if e["ok"] != true || e["end"] == true {
			return
		}
	}
}
