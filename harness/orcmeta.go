package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io/ioutil"
	"math"
)

// An independent reading of ORC metadata: protobuf wire format and chunk framing, by the field numbers of
// orc_proto.proto. Nothing of the library is used. It only takes bytes apart: what they must say is judged by the
// specifications.

type pbField struct {
	no   int
	wire int
	v    uint64
	b    []byte
}

func pbParse(b []byte) (fs []pbField) {
	varint := func() uint64 {
		var v uint64
		for i := uint(0); ; i += 7 {
			if len(b) == 0 || i > 63 {
				panic("varint of a message")
			}
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << i
			if c < 0x80 {
				return v
			}
		}
	}
	take := func(n uint64) []byte {
		if n > uint64(len(b)) {
			panic("length of a message field")
		}
		r := b[:n]
		b = b[n:]
		return r
	}
	for len(b) > 0 {
		k := varint()
		f := pbField{no: int(k >> 3), wire: int(k & 7)}
		switch f.wire {
		case 0:
			f.v = varint()
		case 1:
			for i, c := range take(8) {
				f.v |= uint64(c) << uint(8*i)
			}
		case 5:
			for i, c := range take(4) {
				f.v |= uint64(c) << uint(8*i)
			}
		case 2:
			f.b = take(varint())
		default:
			panic(fmt.Sprintf("wire type %d", f.wire))
		}
		fs = append(fs, f)
	}
	return
}

func pbAll(fs []pbField, no int) (r []pbField) {
	for _, f := range fs {
		if f.no == no {
			r = append(r, f)
		}
	}
	return
}

// last one wins
func pbGet(fs []pbField, no int) (pbField, bool) {
	r := pbAll(fs, no)
	if len(r) == 0 {
		return pbField{}, false
	}
	return r[len(r)-1], true
}

func pbInt(fs []pbField, no int, def int) int {
	f, ok := pbGet(fs, no)
	if !ok {
		return def
	}
	if f.v > math.MaxInt32 {
		return math.MaxInt32 // specifications count in 32 bits, no such file is made here
	}
	return int(f.v)
}

func pbInts(fs []pbField, no int) (r []int) {
	r = []int{}
	for _, f := range pbAll(fs, no) {
		if f.wire == 0 {
			r = append(r, int(f.v))
			continue
		}
		b := f.b
		for len(b) > 0 {
			var v uint64
			i := uint(0)
			for {
				if len(b) == 0 {
					panic("packed varint")
				}
				c := b[0]
				b = b[1:]
				v |= uint64(c&0x7f) << i
				i += 7
				if c < 0x80 {
					break
				}
			}
			r = append(r, int(v))
		}
	}
	return
}

func unzig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

// Chunks of a compressed area: [h0, h1, h2, body bytes there are, plain length, body is the plain text]
type Area struct {
	Chunks [][]int `json:"chunks"`
	Plain  []int   `json:"plain"`
	Raw    int     `json:"raw"`
	N      int     `json:"n"` // plain bytes
	bytes  []byte
	ends   []int // plain offset where chunk k ends
	offs   []int // raw offset where chunk k starts
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// inflate takes an area apart; a damaged one panics
func readArea(b []byte, compressed bool) *Area {
	a := &Area{Chunks: [][]int{}, Raw: len(b)}
	if !compressed {
		a.N = len(b)
		a.bytes = b
		a.Plain = ints(b)
		return a
	}
	at := 0
	for at < len(b) {
		if len(b)-at < 3 {
			panic("chunk header is cut")
		}
		h := b[at : at+3]
		n := (int(h[0]) | int(h[1])<<8 | int(h[2])<<16) >> 1
		if at+3+n > len(b) {
			panic("chunk body is cut")
		}
		body := b[at+3 : at+3+n]
		plain := body
		if h[0]&1 == 0 {
			rd := bytes.NewReader(body)
			f := flate.NewReader(rd)
			p, err := ioutil.ReadAll(f)
			if err != nil {
				panic("chunk body does not inflate: " + err.Error())
			}
			if rd.Len() != 0 {
				panic("bytes behind the end of a deflated chunk")
			}
			plain = p
		}
		a.Chunks = append(a.Chunks, []int{int(h[0]), int(h[1]), int(h[2]), n, len(plain), at, len(a.bytes)})
		a.offs = append(a.offs, at)
		a.bytes = append(a.bytes, plain...)
		a.ends = append(a.ends, len(a.bytes))
		at += 3 + n
	}
	a.Plain, a.N = ints(a.bytes), len(a.bytes)
	return a
}

type StreamMeta struct {
	Kind    int     `json:"kind"`
	Col     int     `json:"col"`
	Len     int     `json:"len"`
	Area    *Area   `json:"area"`
	Entries []Entry `json:"entries"`
	raw     []byte
	offset  int
}

type EncMeta struct {
	Kind int `json:"kind"`
	Dict int `json:"dict"`
}

type StripeMeta struct {
	Off     int           `json:"off"`
	Ilen    int           `json:"ilen"`
	Dlen    int           `json:"dlen"`
	Flen    int           `json:"flen"`
	Rows    int           `json:"rows"`
	Streams []*StreamMeta `json:"streams"`
	Encs    []EncMeta     `json:"encs"`
	Foot    *Area         `json:"foot"`
	Stats   []*StatMeta   `json:"stats"`
}

type TypeMeta struct {
	Kind     int      `json:"kind"`
	Subtypes []int    `json:"subtypes"`
	Names    []string `json:"names"`
}

// StatMeta: absent things are empty tuples
type StatMeta struct {
	Count   []int    `json:"count"`
	HasNull []int    `json:"hasnull"` // <<>> absent, <<0>>, <<1>>
	Which   []string `json:"which"`   // kinds of typed statistics present
	Min     []int    `json:"min"`     // cell payload without the leading 1
	Max     []int    `json:"max"`
	HasMin  bool     `json:"hasmin"`
	HasMax  bool     `json:"hasmax"`
	Sum     []int    `json:"sum"`
	Bucket  []int    `json:"bucket"`
	MinUtc  []int    `json:"minutc"`
	MaxUtc  []int    `json:"maxutc"`
	Lower   bool     `json:"lower"`
	Upper   bool     `json:"upper"`
	Disk    []int    `json:"disk"`
}

type FileMeta struct {
	Size    int           `json:"size"`
	Header  []int         `json:"header"`
	PsLen   int           `json:"pslen"`
	FootLen int           `json:"footlen"`
	MetaLen int           `json:"metalen"`
	Comp    int           `json:"comp"`
	Block   int           `json:"block"`
	Version []int         `json:"version"`
	Magic   []int         `json:"magic"`
	Foot    *Area         `json:"foot"`
	Meta    *Area         `json:"meta"`
	HdrLen  int           `json:"hdrlen"`
	Content int           `json:"content"`
	Rows    int           `json:"rows"`
	Stride  int           `json:"stride"`
	Types   []TypeMeta    `json:"types"`
	Stripes []*StripeMeta `json:"stripes"`
	Stats   []*StatMeta   `json:"stats"`
	NMeta   int           `json:"nmeta"` // stripes with statistics
}

func parseStat(b []byte) *StatMeta {
	fs := pbParse(b)
	s := &StatMeta{Count: []int{}, HasNull: []int{}, Which: []string{}, Min: []int{}, Max: []int{}, Sum: []int{}, Bucket: []int{},
		MinUtc: []int{}, MaxUtc: []int{}, Disk: []int{}}
	if f, ok := pbGet(fs, 11); ok {
		s.Disk = limbs(f.v)
	}
	if f, ok := pbGet(fs, 1); ok {
		s.Count = limbs(f.v)
	}
	if f, ok := pbGet(fs, 10); ok {
		s.HasNull = []int{int(f.v)}
	}
	sint := func(m []pbField, no int) []int {
		if f, ok := pbGet(m, no); ok {
			return limbs(uint64(unzig(f.v)))
		}
		return nil
	}
	or := func(a []int) ([]int, bool) {
		if a == nil {
			return []int{}, false
		}
		return a, true
	}
	names := map[int]string{2: "int", 3: "double", 4: "string", 5: "bucket", 6: "decimal", 7: "date", 8: "binary", 9: "timestamp"}
	for no := 2; no <= 9; no++ {
		f, ok := pbGet(fs, no)
		if !ok {
			continue
		}
		m := pbParse(f.b)
		s.Which = append(s.Which, names[no])
		switch no {
		case 2:
			s.Min, s.HasMin = or(sint(m, 1))
			s.Max, s.HasMax = or(sint(m, 2))
			s.Sum, _ = or(sint(m, 3))
		case 3:
			if g, ok := pbGet(m, 1); ok {
				s.Min, s.HasMin = limbs(g.v), true
			}
			if g, ok := pbGet(m, 2); ok {
				s.Max, s.HasMax = limbs(g.v), true
			}
			if g, ok := pbGet(m, 3); ok {
				s.Sum = limbs(g.v)
			}
		case 4:
			if g, ok := pbGet(m, 1); ok {
				s.Min, s.HasMin = ints(g.b), true
			}
			if g, ok := pbGet(m, 2); ok {
				s.Max, s.HasMax = ints(g.b), true
			}
			s.Sum, _ = or(sint(m, 3))
			if g, ok := pbGet(m, 4); ok && !s.HasMin {
				s.Min, s.HasMin, s.Lower = ints(g.b), true, true
			}
			if g, ok := pbGet(m, 5); ok && !s.HasMax {
				s.Max, s.HasMax, s.Upper = ints(g.b), true, true
			}
		case 5:
			for _, x := range pbInts(m, 1) {
				s.Bucket = append(s.Bucket, limbs(uint64(x))...)
			}
		case 6:
			if g, ok := pbGet(m, 1); ok {
				s.Min, s.HasMin = ints(g.b), true
			}
			if g, ok := pbGet(m, 2); ok {
				s.Max, s.HasMax = ints(g.b), true
			}
			if g, ok := pbGet(m, 3); ok {
				s.Sum = ints(g.b)
			}
		case 7:
			s.Min, s.HasMin = or(sint(m, 1))
			s.Max, s.HasMax = or(sint(m, 2))
		case 8:
			s.Sum, _ = or(sint(m, 1))
		case 9:
			s.Min, s.HasMin = or(sint(m, 1))
			s.Max, s.HasMax = or(sint(m, 2))
			s.MinUtc, _ = or(sint(m, 3))
			s.MaxUtc, _ = or(sint(m, 4))
		}
	}
	return s
}

// parseOrc takes a whole file apart
func parseOrc(data []byte) (m *FileMeta, err error) {
	defer func() {
		if p := recover(); p != nil {
			m, err = nil, fmt.Errorf("not an ORC file: %v", p)
		}
	}()
	m = &FileMeta{Size: len(data), Stripes: []*StripeMeta{}, Types: []TypeMeta{}, Stats: []*StatMeta{}, Header: []int{}}
	cut := func(from, to int) []byte {
		if from < 0 || to < from || to > len(data) {
			panic(fmt.Sprintf("bytes %d to %d of %d", from, to, len(data)))
		}
		return data[from:to]
	}
	m.Header = ints(cut(0, 3))
	m.PsLen = int(cut(len(data)-1, len(data))[0])
	ps := pbParse(cut(len(data)-1-m.PsLen, len(data)-1))
	m.FootLen, m.Comp, m.Block, m.MetaLen = pbInt(ps, 1, -1), pbInt(ps, 2, 0), pbInt(ps, 3, -1), pbInt(ps, 5, 0)
	m.Version = pbInts(ps, 4)
	if f, ok := pbGet(ps, 8000); ok {
		m.Magic = ints(f.b)
	} else {
		m.Magic = []int{}
	}
	if m.Comp > 1 {
		panic("compression kind")
	}
	zip := m.Comp == 1
	footAt := len(data) - 1 - m.PsLen - m.FootLen
	metaAt := footAt - m.MetaLen
	m.Foot = readArea(cut(footAt, footAt+m.FootLen), zip)
	m.Meta = readArea(cut(metaAt, footAt), zip)
	fo := pbParse(m.Foot.bytes)
	m.HdrLen, m.Content, m.Rows, m.Stride = pbInt(fo, 1, -1), pbInt(fo, 2, -1), pbInt(fo, 6, 0), pbInt(fo, 8, 0)
	for _, f := range pbAll(fo, 4) {
		t := pbParse(f.b)
		tm := TypeMeta{Kind: pbInt(t, 1, 0), Subtypes: pbInts(t, 2), Names: []string{}}
		for _, n := range pbAll(t, 3) {
			tm.Names = append(tm.Names, string(n.b))
		}
		m.Types = append(m.Types, tm)
	}
	for _, f := range pbAll(fo, 7) {
		m.Stats = append(m.Stats, parseStat(f.b))
	}
	for _, f := range pbAll(fo, 3) {
		si := pbParse(f.b)
		s := &StripeMeta{Off: pbInt(si, 1, -1), Ilen: pbInt(si, 2, 0), Dlen: pbInt(si, 3, -1), Flen: pbInt(si, 4, -1),
			Rows: pbInt(si, 5, -1), Streams: []*StreamMeta{}, Encs: []EncMeta{}, Stats: []*StatMeta{}}
		s.Foot = readArea(cut(s.Off+s.Ilen+s.Dlen, s.Off+s.Ilen+s.Dlen+s.Flen), zip)
		sf := pbParse(s.Foot.bytes)
		at := s.Off
		for _, g := range pbAll(sf, 1) {
			st := pbParse(g.b)
			x := &StreamMeta{Kind: pbInt(st, 1, 0), Col: pbInt(st, 2, 0), Len: pbInt(st, 3, 0), offset: at}
			x.raw = cut(at, at+x.Len)
			x.Area = readArea(x.raw, zip)
			at += x.Len
			s.Streams = append(s.Streams, x)
		}
		for _, g := range pbAll(sf, 2) {
			e := pbParse(g.b)
			s.Encs = append(s.Encs, EncMeta{Kind: pbInt(e, 1, 0), Dict: pbInt(e, 2, 0)})
		}
		m.Stripes = append(m.Stripes, s)
	}
	mm := pbAll(pbParse(m.Meta.bytes), 1)
	m.NMeta = len(mm)
	for i, g := range mm {
		if i < len(m.Stripes) {
			for _, c := range pbAll(pbParse(g.b), 1) {
				m.Stripes[i].Stats = append(m.Stripes[i].Stats, parseStat(c.b))
			}
		}
	}
	return m, nil
}
