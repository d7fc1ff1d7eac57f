package main

import (
	"fmt"
	"math/rand"

	"github.com/golang/protobuf/proto"
)

func init() { commands["files"] = cmdFiles }

// Entry of a row index
type Entry struct {
	Pos  []int       `json:"pos"`
	Stat []*StatMeta `json:"stat"`
}

func parseIndex(b []byte) (es []Entry) {
	es = []Entry{}
	for _, f := range pbAll(pbParse(b), 1) {
		e := pbParse(f.b)
		x := Entry{Pos: pbInts(e, 1), Stat: []*StatMeta{}}
		if g, ok := pbGet(e, 2); ok {
			x.Stat = append(x.Stat, parseStat(g.b))
		}
		es = append(es, x)
	}
	return
}

type DictMeta struct {
	Stripe int     `json:"stripe"`
	Col    int     `json:"col"`
	Words  [][]int `json:"words"`
}

type FileOpts struct {
	Index    bool `json:"index"`
	Stride   int  `json:"stride"`
	Stripe   int  `json:"stripe"`
	Compress bool `json:"compress"`
	Chunk    int  `json:"chunk"`
}

// FileRec is validated by FileTrace
type FileRec struct {
	Id      string      `json:"id"`
	N       int         `json:"n"`
	Schema  []Col       `json:"schema"`
	Cells   [][]Cell    `json:"cells"`
	Meta    *FileMeta   `json:"meta"`
	Opts    FileOpts    `json:"opts"`
	Dicts   []DictMeta  `json:"dicts"`
	Got     []*StatMeta `json:"got"`
	After   [][]int     `json:"after"` // [rows written, length of the file] after every Write
	Trouble string      `json:"trouble"`
	Info    string      `json:"info"`
}

// rleUnsigned decodes run-length v2 numbers, to propose a dictionary that the specification checks
func rleUnsigned(b []byte) (out []uint64) {
	width := func(c byte) int {
		if c < 24 {
			return int(c) + 1
		}
		return []int{26, 28, 30, 32, 40, 48, 56, 64}[c-24]
	}
	closest := func(n int) int {
		for c := byte(0); c < 32; c++ {
			if width(c) >= n {
				return width(c)
			}
		}
		return 64
	}
	bitsAt := func(p []byte, at, w int) (v uint64) {
		for i := at; i < at+w; i++ {
			v = v<<1 | uint64(p[i/8]>>uint(7-i%8)&1)
		}
		return
	}
	varint := func() (v uint64) {
		for i := uint(0); ; i += 7 {
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << i
			if c < 0x80 {
				return
			}
		}
	}
	for len(b) > 0 {
		h := b[0]
		if h>>6 == 0 {
			w, n := int(h>>3&7)+1, int(h&7)+3
			v := bitsAt(b[1:], 0, 8*w)
			for ; n > 0; n-- {
				out = append(out, v)
			}
			b = b[1+w:]
			continue
		}
		code := h >> 1 & 31
		n := int(h&1)<<8 + int(b[1]) + 1
		switch h >> 6 {
		case 1:
			w := width(code)
			b = b[2:]
			for i := 0; i < n; i++ {
				out = append(out, bitsAt(b, i*w, w))
			}
			b = b[(n*w+7)/8:]
		case 3:
			w := 0
			if code > 0 {
				w = width(code)
			}
			b = b[2:]
			v := varint()
			d := unzig(varint())
			out = append(out, v)
			if n > 1 {
				v += uint64(d)
				out = append(out, v)
			}
			for i := 2; i < n; i++ {
				if w == 0 {
					v += uint64(d)
				} else if x := bitsAt(b, (i-2)*w, w); d < 0 {
					v -= x
				} else {
					v += x
				}
				out = append(out, v)
			}
			if n > 2 {
				b = b[((n-2)*w+7)/8:]
			}
		case 2:
			w := width(code)
			bw, pw, pgw, pl := int(b[2]>>5)+1, width(b[2]&31), int(b[3]>>5)+1, int(b[3]&31)
			b = b[4:]
			base := bitsAt(b, 0, 8*bw)
			if base>>uint(8*bw-1) == 1 {
				base = -(base & (1<<uint(8*bw-1) - 1))
			}
			b = b[bw:]
			vs := make([]uint64, n)
			for i := range vs {
				vs[i] = bitsAt(b, i*w, w)
			}
			b = b[(n*w+7)/8:]
			cw, at := closest(pw+pgw), 0
			for k := 0; k < pl; k++ {
				x := bitsAt(b, k*cw, cw)
				at += int(x >> uint(pw))
				vs[at] |= (x & (1<<uint(pw) - 1)) << uint(w)
			}
			b = b[(pl*cw+7)/8:]
			for _, v := range vs {
				out = append(out, base+v)
			}
		}
	}
	return
}

func safely(f func()) (what string) {
	defer func() {
		if p := recover(); p != nil {
			what = fmt.Sprint(p)
		}
	}()
	f()
	return
}

func dictsOf(m *FileMeta) (ds []DictMeta) {
	ds = []DictMeta{}
	for s, st := range m.Stripes {
		for c, e := range st.Encs {
			if e.Kind != 3 {
				continue
			}
			d := DictMeta{Stripe: s + 1, Col: c, Words: [][]int{}}
			var length, text []byte
			for _, x := range st.Streams {
				if x.Col == c && x.Kind == 2 {
					length = x.Area.bytes
				} else if x.Col == c && x.Kind == 3 {
					text = x.Area.bytes
				}
			}
			safely(func() { // what cannot be read is no dictionary the specification accepts
				for _, n := range rleUnsigned(length) {
					d.Words = append(d.Words, ints(text[:n]))
					text = text[n:]
				}
			})
			ds = append(ds, d)
		}
	}
	return
}

// record takes the bytes of a file apart
func record(id string, d *Data, data []byte, o WOpts, info string) *FileRec {
	r := &FileRec{Id: id, N: d.N, Schema: d.Cols, Cells: d.Cells, Dicts: []DictMeta{}, Got: []*StatMeta{}, After: [][]int{}, Info: info,
		Meta: &FileMeta{Stripes: []*StripeMeta{}},
		Opts: FileOpts{o.WriteIndex, o.Stride, o.StripeSize, o.Compression != "none", o.ChunkSize}}
	m, err := parseOrc(data)
	if err != nil {
		r.Trouble = err.Error()
		return r
	}
	r.Meta = m
	r.Dicts = dictsOf(m)
	m.Foot.Plain, m.Meta.Plain = []int{}, []int{}
	for _, s := range m.Stripes {
		s.Foot.Plain = []int{}
		for _, x := range s.Streams {
			x.Entries = []Entry{}
			if x.Kind == 6 {
				if t := safely(func() { x.Entries = parseIndex(x.Area.bytes) }); t != "" {
					r.Trouble = "row index: " + t
				}
				x.Area.Plain = []int{}
			}
		}
	}
	return r
}

type filesArg struct {
	Small   bool     `json:"small"`
	NoIndex bool     `json:"noindex"`
	Index   bool     `json:"index"`
	Stripes bool     `json:"stripes"` // small stripes
	Long    bool     `json:"long"`    // one column of many rows, small stripes
	Huge    bool     `json:"huge"`    // one column of more rows than 16 bits count, without the bytes of its streams
	Kinds   []string `json:"kinds"`
}

func cmdFiles(p *Plan) interface{} {
	var a filesArg
	if p.ArgFile != "" {
		p.arg(&a)
	}
	var out []*FileRec
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*15485863 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		c := Case{Seed: seed, Opts: randomOpts(rnd)}
		if len(a.Kinds) > 0 {
			c.Cols, c.Prof.Wide = randomCols(rnd, 1+rnd.Intn(5), a.Kinds), true
		} else if a.Long {
			ke := kindEncs[k%len(kindEncs)]
			c.Cols = kindCols(ke.kind, ke.enc, k/len(kindEncs)%2 == 1)[:2]
			c.Cols[0].Children, c.Cols[0].Names = []int{1}, []string{"a"}
		} else if k%3 == 0 {
			ke := kindEncs[(k/3)%len(kindEncs)]
			c.Cols = kindCols(ke.kind, ke.enc, rnd.Intn(2) == 0)
		} else {
			c.Cols, _ = mixedCols(rnd, k, 1+rnd.Intn(8), 0)
		}
		c.Rows = randomRows(rnd, p.Rows/len(c.Cols))
		c.Batches = splitRows(rnd, c.Rows)
		c.Prof.Small = a.Small || rnd.Intn(4) == 0
		if a.Index && c.Rows/c.Opts.Stride > 150 {
			c.Opts.Stride = c.Rows/150 + rnd.Intn(20)
		}
		c.Opts.WriteIndex = (c.Opts.WriteIndex || a.Index) && !a.NoIndex
		if c.Opts.Compression != "none" && c.Opts.ChunkSize < 64 && rnd.Intn(4) > 0 {
			c.Opts.ChunkSize = 64 + rnd.Intn(1000)
		}
		if a.Stripes {
			c.Opts.StripeSize = 1 + rnd.Intn(3000)
			if max := 20 * c.Opts.StripeSize; c.Rows > max { // some hundred stripes are enough
				c.Rows = max
				c.Batches = splitRows(rnd, c.Rows)
			}
		}
		if a.Long {
			c.Rows = p.Rows/2 + rnd.Intn(p.Rows/2)
			if c.Cols[1].Enc == "dictv2" {
				c.Rows /= 5
			}
			c.Batches = splitRows(rnd, c.Rows)
			c.Opts.Stride = 1000
			if k%4 > 0 {
				c.Opts.Compression = "none"
			}
			if round := k / len(kindEncs) % 6; round%3 < 2 {
				c.Prof.Lean, c.Opts.StripeSize = true, 30+rnd.Intn(170)
				if round > 2 {
					c.Opts.StripeSize = 200 + rnd.Intn(400)
				}
			}
		}
		if a.Huge {
			c = bigCase(seed, k+int(p.Seed), p.Rows, rnd)
			c.Cols = c.Cols[:2]
			c.Cols[0].Children, c.Cols[0].Names = []int{1}, []string{"a"}
		}
		r := c.record()
		if a.Huge && r.Meta != nil {
			for i := range r.Meta.Stripes {
				for j := range r.Meta.Stripes[i].Streams {
					r.Meta.Stripes[i].Streams[j].Area.Plain = []int{}
				}
			}
		}
		out = append(out, r)
	}
	return out
}

func (c Case) record() *FileRec {
	d, data, evs, ok := c.make()
	r := record(fmt.Sprintf("file %d", c.Seed), d, data, c.Opts, toJson(c))
	if !ok {
		r.Trouble = "not written: " + toJson(evs)
		return r
	}
	n := 0
	for _, e := range evs {
		if e["op"] == "write" {
			n += e["n"].(int)
			r.After = append(r.After, []int{n, e["at"].(int)})
		}
	}
	s := newSession(NewDisk(data), rand.New(rand.NewSource(1)))
	s.disk.record = false
	if !s.open() {
		r.Trouble = "not opened: " + toJson(s.evs)
		return r
	}
	if t := guard(func() {
		for _, st := range s.r.GetStatistics() {
			b, err := proto.Marshal(st)
			if err != nil {
				panic(err)
			}
			r.Got = append(r.Got, parseStat(b))
		}
		s.r.Close()
	}); t != "" {
		r.Trouble = "statistics: " + t
	}
	return r
}
