package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/orc/encoding"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
)

func init() {
	commands["rleenc"] = cmdRleEnc
	commands["rledec"] = cmdRleDec
}

// chunked lays bytes out in chunks, some original, some deflated; any piece lengths, empty ones too
func chunked(b []byte, rnd *rand.Rand, chunkSize int, empty bool) []byte {
	var out []byte
	piece := func(p []byte) {
		body, orig := p, 1
		if rnd.Intn(3) > 0 && len(p) > 0 {
			var z bytes.Buffer
			w, _ := flate.NewWriter(&z, 1+rnd.Intn(9))
			w.Write(p)
			w.Close()
			if z.Len() < len(p) || z.Len() <= chunkSize && rnd.Intn(2) == 0 {
				body, orig = z.Bytes(), 0
			}
		}
		h := len(body)<<1 | orig
		out = append(append(out, byte(h), byte(h>>8), byte(h>>16)), body...)
	}
	for len(b) > 0 {
		n := 1 + rnd.Intn(chunkSize)
		if rnd.Intn(3) == 0 {
			n = chunkSize
		}
		if n > len(b) {
			n = len(b)
		}
		piece(b[:n])
		b = b[n:]
		if empty && rnd.Intn(8) == 0 {
			piece(nil)
		}
	}
	return out
}

// layStream puts bytes somewhere into a file and returns what a stream reader needs
func layStream(b []byte, rnd *rand.Rand, kind pb.Stream_Kind) (opts *config.ReaderOptions, info *pb.Stream, start uint64, d *Disk) {
	o := config.DefaultReaderOptions()
	size := []int{1, 2, 5, 16, 64, 300, 4096, 262144}[rnd.Intn(8)]
	if len(b)/size > 300 {
		size = 1 + len(b)/300
	}
	o.ChunkSize = uint64(size)
	o.CompressionKind = pb.CompressionKind_NONE
	if rnd.Intn(3) > 0 {
		o.CompressionKind = pb.CompressionKind_ZLIB
		b = chunked(b, rnd, size, rnd.Intn(2) == 0)
	}
	pre := make([]byte, rnd.Intn(20))
	rnd.Read(pre)
	post := make([]byte, rnd.Intn(20))
	rnd.Read(post)
	start = uint64(len(pre))
	col, l := uint32(1), uint64(len(b))
	d = NewDisk(append(append(pre, b...), post...))
	d.record = false
	if rnd.Intn(2) == 0 {
		d.maxRead, d.rnd = 1+rnd.Intn(30), rnd.Intn
	}
	return &o, &pb.Stream{Kind: &kind, Column: &col, Length: &l}, start, d
}

func limbSeq(vs []uint64) [][]int {
	r := make([][]int, len(vs))
	for i, v := range vs {
		r[i] = limbs(v)
	}
	return r
}

func same64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// decodeAll decodes run by run
func decodeAll(b []byte, signed bool, limit int) (vs []uint64, err error) {
	in := bytes.NewBuffer(append([]byte{}, b...))
	d := encoding.NewIntDecoder(signed)
	for in.Len() > 0 && len(vs) <= limit {
		if signed {
			x, err := d.DecodeInt(in)
			if err != nil {
				return vs, err
			}
			for _, v := range x {
				vs = append(vs, uint64(v))
			}
			if len(x) == 0 {
				return vs, fmt.Errorf("run without values")
			}
		} else {
			x, err := d.DecodeUInt(in)
			if err != nil {
				return vs, err
			}
			vs = append(vs, x...)
			if len(x) == 0 {
				return vs, fmt.Errorf("run without values")
			}
		}
	}
	return
}

// readAllInts reads n values through a stream reader from some chunk layout
func readAllInts(b []byte, signed bool, n int, rnd *rand.Rand) (vs []uint64, err error) {
	opts, info, start, disk := layStream(b, rnd, pb.Stream_DATA)
	f := disk.Open()
	if _, err = f.Seek(int64(start), 0); err != nil {
		return
	}
	r := stream.NewIntRLV2Reader(opts, info, start, signed, f)
	for i := 0; i < n; i++ {
		if r.Finished() {
			return vs, fmt.Errorf("finished after %d of %d values", i, n)
		}
		if signed {
			v, err := r.NextInt64()
			if err != nil {
				return vs, err
			}
			vs = append(vs, uint64(v))
		} else {
			v, err := r.NextUInt64()
			if err != nil {
				return vs, err
			}
			vs = append(vs, v)
		}
	}
	return
}

func rleEvent(b []byte, signed bool, vals, dec []uint64) Ev {
	e := Ev{"op": "rle", "signed": signed, "bytes": ints(b), "vals": limbSeq(vals)}
	if same64(vals, dec) {
		e["dec"] = e["vals"]
	} else {
		e["dec"] = limbSeq(dec)
	}
	return e
}

func trouble(what string) Ev { return Ev{"op": "trouble", "what": what} }

// encodeEvents encodes segments with one encoder, flushed after each
func encodeEvents(segs [][]uint64, signed, positions bool, rnd *rand.Rand, readBack bool) (evs []Ev) {
	t := guard(func() {
		enc := encoding.NewIntRLV2(signed, positions)
		for _, vals := range segs {
			var out bytes.Buffer
			for _, v := range vals {
				var err error
				if signed {
					err = enc.Encode(int64(v), &out)
				} else {
					err = enc.Encode(v, &out)
				}
				if err != nil {
					evs = append(evs, trouble(fmt.Sprint("encode: ", err)))
					return
				}
			}
			if err := enc.Flush(&out); err != nil {
				evs = append(evs, trouble(fmt.Sprint("flush: ", err)))
				return
			}
			dec, err := decodeAll(out.Bytes(), signed, len(vals))
			if err != nil {
				evs = append(evs, rleEvent(out.Bytes(), signed, vals, nil), trouble(fmt.Sprint("decode: ", err)))
				return
			}
			evs = append(evs, rleEvent(out.Bytes(), signed, vals, dec))
		}
	})
	if t != "" {
		evs = append(evs, trouble(t))
	}
	return
}

func randomSegment(rnd *rand.Rand, n int, signed bool) []uint64 {
	bits := []uint{8, 16, 32, 40, 63, 64}[rnd.Intn(6)]
	g := intGen(rnd, bits)
	vs := make([]uint64, 0, n)
	for i := 0; i < n; i++ {
		v := g(i)
		if !signed && rnd.Intn(50) > 0 && v < 0 {
			v = -v
		}
		vs = append(vs, uint64(v))
	}
	return vs
}

// patchy makes narrow values with wide ones at chosen gaps
func patchy(rnd *rand.Rand, n int, signed bool) []uint64 {
	w := 1 + uint(rnd.Intn(40))
	base := int64(rnd.Intn(2000)) - 1000
	if rnd.Intn(3) == 0 {
		base = int64(rnd.Uint64()) >> uint(10+rnd.Intn(50))
	}
	if !signed && base < 0 {
		base = -base
	}
	vs := make([]uint64, n)
	for i := range vs {
		vs[i] = uint64(base + int64(rnd.Uint64()&(1<<w-1)))
	}
	extra := uint(1 + rnd.Intn(int(63-w)))
	many := rnd.Intn(1 + n/15)
	for k := 0; k <= many; k++ {
		at := rnd.Intn(n)
		if rnd.Intn(4) == 0 {
			at = n - 1
		}
		if rnd.Intn(8) == 0 {
			at = 0
		}
		vs[at] = uint64(base + int64(rnd.Uint64()&(1<<(w+extra)-1)>>1))
	}
	return vs
}

var edgeLens = []int{1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 20, 31, 64, 100, 255, 256, 257, 300, 511, 512, 513, 514, 515, 600, 1023, 1024, 1025, 1030}

func cmdRleEnc(p *Plan) interface{} {
	var a struct {
		Alphabet []string   `json:"alphabet"`
		Len      int        `json:"len"`
		Plans    []rleShape `json:"plans"`
	}
	p.arg(&a)
	var out []*Trace
	// every sequence of up to len letters
	var letters []uint64
	for _, s := range a.Alphabet {
		b, _ := new(big.Int).SetString(s, 10)
		if b.Sign() < 0 {
			letters = append(letters, uint64(b.Int64()))
		} else {
			letters = append(letters, b.Uint64())
		}
	}
	nth := 0
	var t *Trace
	add := func(id string, evs []Ev) {
		if t == nil || len(t.Events) > 200 {
			t = &Trace{Id: id, Cols: [][]Cell{}, Vec: []bool{}, Events: []Ev{}}
			out = append(out, t)
		}
		t.Events = append(t.Events, evs...)
	}
	for n := 1; n <= a.Len && len(letters) > 0; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(letters)
		}
		for k := 0; k < total; k++ {
			nth++
			if !p.mine(nth) {
				continue
			}
			seg := make([]uint64, n)
			for i, x := 0, k; i < n; i++ {
				seg[i] = letters[x%len(letters)]
				x /= len(letters)
			}
			add(fmt.Sprintf("all sequences, %d on", nth), encodeEvents([][]uint64{seg}, true, false, nil, false))
			neg := false
			for _, v := range seg {
				neg = neg || int64(v) < 0 && v != math.MaxUint64
			}
			if !neg || k%3 == 0 {
				add("", encodeEvents([][]uint64{seg}, false, false, nil, false))
			}
		}
	}
	for k, plan := range a.Plans {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*15485863 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		pt := &Trace{Id: fmt.Sprintf("shape %+v %d", plan, seed), Cols: [][]Cell{}, Vec: []bool{}}
		pt.Events = encodeEvents([][]uint64{plan.values(rnd)}, plan.Signed, rnd.Intn(2) == 0, rnd, true)
		out = append(out, pt)
	}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*15485863 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		signed := rnd.Intn(2) == 0
		var segs [][]uint64
		left := 1 + rnd.Intn(p.Rows)
		for left > 0 && len(segs) < 6 {
			n := edgeLens[rnd.Intn(len(edgeLens))]
			if rnd.Intn(3) == 0 {
				n = 1 + rnd.Intn(600)
			}
			if n > left {
				n = left
			}
			left -= n
			if rnd.Intn(4) == 0 {
				segs = append(segs, patchy(rnd, n, signed))
			} else {
				segs = append(segs, randomSegment(rnd, n, signed))
			}
		}
		t := &Trace{Id: fmt.Sprintf("encoder %d", seed), Cols: [][]Cell{}, Vec: []bool{}, Info: fmt.Sprintf(`{"seed":%d}`, seed)}
		t.Events = encodeEvents(segs, signed, rnd.Intn(2) == 0, rnd, true)
		out = append(out, t)
	}
	return out
}

// rleShape is a sequence the specification asks for
type rleShape struct {
	Shape      string `json:"shape"`
	Signed     bool   `json:"signed"`
	A, B, C, D int
}

func (h rleShape) values(rnd *rand.Rand) []uint64 {
	var vs []uint64
	switch h.Shape {
	case "outlier": // two values that are wider, the first at a, the second b later
		base := int64(rnd.Intn(3000))
		if h.Signed {
			base -= 1500
		}
		for i := 0; i < 512; i++ {
			v := base + int64(rnd.Uint64()&(1<<uint(h.C)-1))
			if i == h.A || i == h.A+h.B {
				v = base + 1<<uint(h.C+h.D-1) + int64(rnd.Uint64()&(1<<uint(h.C)-1))
			}
			vs = append(vs, uint64(v))
		}
		n := h.A + h.B + 1 + rnd.Intn(512-h.A-h.B)
		if n < 64 {
			n = 64
		}
		if rnd.Intn(2) == 0 {
			vs = vs[:n]
		}
	case "mono": // differences are a bits wide at most
		v, top := int64(0), int64(math.MaxInt64)
		if h.Signed {
			v = -int64(rnd.Uint64() >> 1)
			if h.B == 0 {
				v = -v
			}
			top = math.MaxInt64
		} else if h.B == 0 {
			v = math.MaxInt64 - int64(rnd.Intn(1000))
		}
		for i := 0; i < h.C; i++ {
			vs = append(vs, uint64(v))
			d := int64(0)
			if h.A > 0 {
				d = int64(rnd.Uint64()>>uint(64-h.A)) | 1<<uint(h.A-1)
				if i > 1 && rnd.Intn(3) == 0 {
					d >>= uint(rnd.Intn(h.A + 1))
				}
			}
			if h.B == 1 {
				if v > top-d {
					d = 0
				}
				v += d
			} else {
				low := int64(0)
				if h.Signed {
					low = math.MinInt64
				}
				if v < low+d {
					d = 0
				}
				v -= d
			}
		}
	case "width": // the widest has a bits
		for i := 0; i < h.B; i++ {
			var v uint64
			if h.A > 0 {
				v = rnd.Uint64() >> uint(64-h.A)
				if i == h.B/2 {
					v |= 1 << uint(h.A-1)
				}
			}
			if h.Signed {
				v = uint64(int64(v>>1) ^ -int64(v&1))
			}
			vs = append(vs, v)
		}
	case "repeat": // a values, then b equal ones, then c values
		mask := uint64(1)<<uint(h.D) - 1
		other := func() {
			vs = append(vs, rnd.Uint64()&mask)
		}
		for i := 0; i < h.A; i++ {
			other()
		}
		v := rnd.Uint64() & mask
		for i := 0; i < h.B; i++ {
			vs = append(vs, v)
		}
		for i := 0; i < h.C; i++ {
			other()
		}
	}
	return vs
}

// ---- legal runs of any writer ----

type bitWriter struct {
	b    []byte
	cur  uint
	bits uint
}

func (w *bitWriter) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		w.cur = w.cur<<1 | uint(v>>uint(i)&1)
		w.bits++
		if w.bits == 8 {
			w.b = append(w.b, byte(w.cur))
			w.cur, w.bits = 0, 0
		}
	}
}

func (w *bitWriter) align() {
	for w.bits != 0 {
		w.put(0, 1)
	}
}

func putUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func zig(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

var rleWidths = []uint{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 28, 30, 32, 40, 48, 56, 64}

func randBits(rnd *rand.Rand, w uint) uint64 {
	v := rnd.Uint64()
	if w < 64 {
		v &= 1<<w - 1
	}
	switch rnd.Intn(8) {
	case 0:
		return 0
	case 1:
		if w == 64 {
			return math.MaxUint64
		}
		return 1<<w - 1
	case 2:
		return v >> uint(rnd.Intn(int(w)))
	}
	return v
}

// legalRun returns the bytes of one legal run, kind 0 to 3, width code 0 to 31
func legalRun(rnd *rand.Rand, kind int, code int, n int, signed bool) (b []byte, count int) {
	w := rleWidths[code]
	w9 := func(b byte, n int) []byte { return []byte{b | byte((n-1)>>8), byte(n - 1)} }
	switch kind {
	case 0:
		bw := uint(1 + code%8)
		n = 3 + n%8
		bits := &bitWriter{b: []byte{byte(bw-1)<<3 | byte(n-3)}}
		bits.put(randBits(rnd, bw*8), bw*8)
		return bits.b, n
	case 1:
		bits := &bitWriter{b: w9(0x40|byte(code)<<1, n)}
		for i := 0; i < n; i++ {
			bits.put(randBits(rnd, w), w)
		}
		bits.align()
		return bits.b, n
	case 2:
		for w > 56 { // a patch needs room
			code--
			w = rleWidths[code]
		}
		bw := uint(1 + rnd.Intn(8))
		var pc int
		for {
			pc = rnd.Intn(32)
			if rnd.Intn(2) == 0 {
				pc = rnd.Intn(12)
			}
			if rleWidths[pc]+w <= 64 {
				break
			}
		}
		pw := rleWidths[pc]
		gw := uint(1 + rnd.Intn(8))
		for pw+gw > 64 {
			gw--
		}
		if gw == 0 { // no room for a gap
			pc, pw, gw = 0, 1, 1
		}
		pl := 1 + rnd.Intn(31)
		type ent struct{ gap, patch uint64 }
		var es []ent
		at := -1
		maxGap := uint64(1)<<gw - 1
		for len(es) < pl {
			rest := n - 1 - at
			if at < 0 {
				rest = n
			}
			if rest <= 0 {
				break
			}
			gap := rnd.Intn(rest)
			if at >= 0 {
				gap++
			}
			if rnd.Intn(2) == 0 && gap > 3 {
				gap = 1 + rnd.Intn(3)
			}
			if gw == 8 && rnd.Intn(4) == 0 && rest > 260 {
				gap = 256 + rnd.Intn(rest-256)
			}
			if at < 0 {
				at = 0
			}
			at += gap
			for uint64(gap) > 255 && gw == 8 && len(es) < 30 {
				es = append(es, ent{255, 0})
				gap -= 255
			}
			if uint64(gap) > maxGap || at >= n {
				break
			}
			patch := randBits(rnd, pw)
			if patch == 0 {
				patch = 1
			}
			es = append(es, ent{uint64(gap), patch})
		}
		for len(es) > 31 {
			es = es[:31]
		}
		for len(es) > 0 && es[len(es)-1].patch == 0 {
			es = es[:len(es)-1]
		}
		if len(es) == 0 {
			es = []ent{{0, 1}}
		}
		bits := &bitWriter{b: append(w9(0x80|byte(code)<<1, n), byte(bw-1)<<5|byte(pc), byte(gw-1)<<5|byte(len(es)))}
		base := randBits(rnd, bw*8-1)
		if rnd.Intn(2) == 0 {
			base >>= 8 // leaves room
		}
		sign := uint64(0)
		if signed && rnd.Intn(2) == 0 {
			sign = 1
		}
		if base == 0 {
			sign = 0
		}
		bits.put(sign, 1)
		bits.put(base, bw*8-1)
		for i := 0; i < n; i++ {
			bits.put(randBits(rnd, w), w)
		}
		bits.align()
		ew := gw + pw
		for _, x := range rleWidths {
			if x >= ew {
				ew = x
				break
			}
		}
		for _, e := range es {
			bits.put(0, ew-gw-pw)
			bits.put(e.gap, gw)
			bits.put(e.patch, pw)
		}
		bits.align()
		return bits.b, n
	}
	// delta
	if n < 2 {
		n = 2
	}
	hdr := byte(0xc0)
	if code == 0 {
		w = 0
	} else {
		hdr |= byte(code) << 1
	}
	ew := w
	if ew > 53 {
		ew = 53 // 512 of them stay in 64 bits
	}
	var first int64
	for try := 0; ; try++ {
		first = int64(randBits(rnd, uint(1+rnd.Intn(63))))
		if signed && rnd.Intn(2) == 0 {
			first = -first
		}
		step := int64(randBits(rnd, uint(1+rnd.Intn(40))))
		if w == 0 && rnd.Intn(3) == 0 {
			step = int64(rnd.Intn(3))
		}
		if step == 0 && w > 0 {
			step = 1
		}
		if rnd.Intn(2) == 0 {
			step = -step
		}
		ds := make([]uint64, n)
		sum := new(big.Int).Add(big.NewInt(first), big.NewInt(step))
		for i := 2; i < n; i++ {
			if w == 0 {
				sum.Add(sum, big.NewInt(step))
				continue
			}
			x := ew
			if try > 3 {
				x = 1 + uint(rnd.Intn(int(ew)))
				if x > 30 {
					x = 30
				}
			}
			ds[i] = randBits(rnd, x)
			d := new(big.Int).SetUint64(ds[i])
			if step < 0 {
				d.Neg(d)
			}
			sum.Add(sum, d)
		}
		lo := new(big.Int)
		if signed {
			lo = big.NewInt(math.MinInt64)
		}
		if sum.Cmp(lo) < 0 || sum.Cmp(big.NewInt(math.MaxInt64)) > 0 {
			if try < 50 {
				continue
			}
			first, step = 1000, 1
			if w > 0 {
				for i := range ds {
					ds[i] = uint64(i) & 1
				}
			}
		}
		b = w9(hdr, n)
		if signed {
			b = putUvarint(b, zig(first))
		} else {
			b = putUvarint(b, uint64(first))
		}
		b = putUvarint(b, zig(step))
		bits := &bitWriter{b: b}
		if w > 0 {
			for i := 2; i < n; i++ {
				bits.put(ds[i], w)
			}
			bits.align()
		}
		return bits.b, n
	}
}

func cmdRleDec(p *Plan) interface{} {
	var heads []struct {
		Kind   int  `json:"kind"`
		Code   int  `json:"code"`
		N      int  `json:"n"`
		Signed bool `json:"signed"`
	}
	p.arg(&heads)
	var out []*Trace
	// every header once, in sequences of a few runs
	const per = 3
	for k := 0; k*per < len(heads); k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*32452843 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		t := &Trace{Id: fmt.Sprintf("legal runs %d", seed), Cols: [][]Cell{}, Vec: []bool{}, Info: fmt.Sprintf(`{"seed":%d}`, seed), Events: []Ev{}}
		out = append(out, t)
		for _, signed := range []bool{true, false} {
			var b []byte
			total := 0
			for j := k * per; j < (k+1)*per && j < len(heads); j++ {
				if heads[j].Signed == signed {
					x, n := legalRun(rnd, heads[j].Kind, heads[j].Code, heads[j].N, signed)
					b = append(b, x...)
					total += n
				}
			}
			if total == 0 {
				continue
			}
			if tr := guard(func() {
				vals, err := decodeAll(b, signed, total)
				if err != nil {
					t.Events = append(t.Events, rleEvent(b, signed, vals, vals), trouble(fmt.Sprint("decode: ", err)))
					return
				}
				dec, err := readAllInts(b, signed, total, rnd)
				if err != nil {
					t.Events = append(t.Events, trouble(fmt.Sprint("stream: ", err)))
					return
				}
				t.Events = append(t.Events, rleEvent(b, signed, vals, dec))
			}); tr != "" {
				t.Events = append(t.Events, trouble(tr))
			}
		}
	}
	return out
}
