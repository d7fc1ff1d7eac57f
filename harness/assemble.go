package main

import (
	"bytes"
	"compress/flate"
	"math/rand"
	"sort"
)

// An ORC file as another writer may lay it out: FilePlan is a behaviour of Layouts, everything below the plan
// (runs, chunks, positions) is drawn. Nothing of the library is used, FileTrace checks the bytes.

type FilePlan struct {
	F       int          `json:"f"`
	Head    PlanHead     `json:"head"`
	Stripes []PlanStripe `json:"stripes"`
}

type PlanHead struct {
	Comp      string `json:"comp"`
	Block     int    `json:"block"`
	Chunks    string `json:"chunks"` // full any original
	Stride    int    `json:"stride"`
	HasNull   string `json:"hasnull"` // set absent
	Stats     string `json:"stats"`   // file entries stripes
	Content   string `json:"content"` // whole body
	UserMeta  int    `json:"usermeta"`
	Footer    string `json:"footer"` // one pieces originals
	Runs      string `json:"runs"`   // any short
	Skips     string `json:"skips"`  // near far
	Unknown   bool   `json:"unknown"`
	BlockSize bool   `json:"blocksize"`
}

type PlanStripe struct {
	Rows    int     `json:"rows"`
	Dict    []int   `json:"dict"`
	Streams [][]int `json:"streams"` // [column, kind]
	Gap     int     `json:"gap"`
}

// ---- protobuf ----

func pbNum(b []byte, no int, v uint64) []byte {
	return putUvarint(putUvarint(b, uint64(no)<<3), v)
}

func pbBytes(b []byte, no int, v []byte) []byte {
	return append(putUvarint(putUvarint(b, uint64(no)<<3|2), uint64(len(v))), v...)
}

func pbPacked(b []byte, no int, vs []int) []byte {
	var p []byte
	for _, v := range vs {
		p = putUvarint(p, uint64(v))
	}
	return pbBytes(b, no, p)
}

// ---- streams ----

// mark is the start of a run: its byte and the number of values before it
type mark struct{ at, n int }

type plainStream struct {
	b     []byte
	marks []mark
	n     int // values
	bools bool
	how   string
}

func widthCode(rnd *rand.Rand, need uint) int {
	c := 0
	for rleWidths[c] < need {
		c++
	}
	if rnd.Intn(4) == 0 {
		c += rnd.Intn(32 - c)
	}
	return c
}

func bitLen(v uint64) (n uint) {
	for ; v > 0; v >>= 1 {
		n++
	}
	return
}

// encodeInts writes values in legal runs of any kind; signed values are given as uint64(int64)
func encodeInts(rnd *rand.Rand, vals []uint64, signed, short bool) (s plainStream) {
	s.how, s.n = "rle", len(vals)
	enc := func(v uint64) uint64 {
		if signed {
			return zig(int64(v))
		}
		return v
	}
	for i := 0; i < len(vals); {
		s.marks = append(s.marks, mark{len(s.b), i})
		rest := vals[i:]
		if len(rest) > 512 {
			rest = rest[:512]
		}
		if short && len(rest) > 12 {
			rest = rest[:1+rnd.Intn(12)]
		} else if rnd.Intn(3) == 0 {
			rest = rest[:1+rnd.Intn(len(rest))]
		}
		var run []byte
		n := 0
		for _, kind := range rnd.Perm(4) {
			switch kind {
			case 0:
				run, n = shortRepeat(rnd, rest, enc)
			case 2:
				run, n = patchedRun(rnd, rest, signed)
			case 3:
				run, n = deltaRun(rnd, rest, signed)
			default:
				if rnd.Intn(2) == 0 {
					run, n = directRun(rnd, rest, enc)
				}
			}
			if n > 0 {
				break
			}
		}
		if n == 0 {
			run, n = directRun(rnd, rest, enc)
		}
		s.b = append(s.b, run...)
		i += n
	}
	return
}

func shortRepeat(rnd *rand.Rand, vs []uint64, enc func(uint64) uint64) ([]byte, int) {
	n := 1
	for n < len(vs) && n < 10 && vs[n] == vs[0] {
		n++
	}
	if n < 3 {
		return nil, 0
	}
	n = 3 + rnd.Intn(n-2)
	v := enc(vs[0])
	w := (bitLen(v) + 7) / 8
	if w == 0 {
		w = 1
	}
	if rnd.Intn(4) == 0 {
		w += uint(rnd.Intn(9 - int(w)))
	}
	bits := &bitWriter{b: []byte{byte(w-1)<<3 | byte(n-3)}}
	bits.put(v, w*8)
	return bits.b, n
}

func head9(kind, code, n int) []byte {
	return []byte{byte(kind<<6 | code<<1 | (n-1)>>8), byte(n - 1)}
}

func directRun(rnd *rand.Rand, vs []uint64, enc func(uint64) uint64) ([]byte, int) {
	w := uint(1)
	for _, v := range vs {
		if l := bitLen(enc(v)); l > w {
			w = l
		}
	}
	code := widthCode(rnd, w)
	bits := &bitWriter{b: head9(1, code, len(vs))}
	for _, v := range vs {
		bits.put(enc(v), rleWidths[code])
	}
	bits.align()
	return bits.b, len(vs)
}

func deltaRun(rnd *rand.Rand, vs []uint64, signed bool) ([]byte, int) {
	ok := func(v uint64) bool { // sums do not overflow
		return int64(v) < 1<<61 && int64(v) > -(1<<61)
	}
	if len(vs) < 2 || !ok(vs[0]) || !ok(vs[1]) {
		return nil, 0
	}
	base := int64(vs[1]) - int64(vs[0])
	n, fixed, w := 2, true, uint(1)
	for ; n < len(vs); n++ {
		d := int64(vs[n]) - int64(vs[n-1])
		if !ok(vs[n]) || base >= 0 && d < 0 || base < 0 && d > 0 {
			break
		}
		if d != base {
			fixed = false
		}
		if d < 0 {
			d = -d
		}
		if l := bitLen(uint64(d)); l > w {
			w = l
		}
	}
	b := []byte{}
	first := func(code int) {
		b = head9(3, code, n)
		if signed {
			b = putUvarint(b, zig(int64(vs[0])))
		} else {
			b = putUvarint(b, vs[0])
		}
		b = putUvarint(b, zig(base))
	}
	if fixed && rnd.Intn(4) > 0 || n == 2 {
		first(0)
		return b, n
	}
	if w < 2 { // code 0 says fixed
		w = 2
	}
	code := widthCode(rnd, w)
	first(code)
	bits := &bitWriter{b: b}
	for i := 2; i < n; i++ {
		d := int64(vs[i]) - int64(vs[i-1])
		if d < 0 {
			d = -d
		}
		bits.put(uint64(d), rleWidths[code])
	}
	bits.align()
	return bits.b, n
}

func patchedRun(rnd *rand.Rand, vs []uint64, signed bool) ([]byte, int) {
	if len(vs) < 2 {
		return nil, 0
	}
	min, max := int64(vs[0]), int64(vs[0])
	for _, v := range vs {
		x := int64(v)
		if x > 1<<60 || x < -(1<<60) {
			return nil, 0
		}
		if x < min {
			min = x
		}
		if x > max {
			max = x
		}
	}
	if rnd.Intn(4) == 0 && (signed || min > 1000) { // any base below
		min -= int64(rnd.Intn(1000))
	}
	abs, neg := uint64(min), uint64(0)
	if min < 0 {
		abs, neg = uint64(-min), 1
	}
	bw := bitLen(abs)/8 + 1
	if bw < 8 && rnd.Intn(4) == 0 {
		bw++
	}
	// width that leaves few values to patch
	lens := []int{}
	for _, v := range vs {
		lens = append(lens, int(bitLen(uint64(int64(v)-min))))
	}
	sort.Ints(lens)
	need := lens[(len(lens)-1)*(60+rnd.Intn(40))/100]
	if need == 0 {
		need = 1
	}
	code := 0
	for rleWidths[code] < uint(need) {
		code++
	}
	w := rleWidths[code]
	big := bitLen(uint64(max - min))
	if w >= big { // patch something, if only a zero
		if big < 2 {
			return nil, 0
		}
		code = 0
		for code < 31 && rleWidths[code+1] < big && rnd.Intn(4) > 0 {
			code++
		}
		w = rleWidths[code]
	}
	if w >= big {
		return nil, 0
	}
	pcode := 0
	for rleWidths[pcode] < big-w {
		pcode++
	}
	pw := rleWidths[pcode]
	gw := uint(1 + rnd.Intn(8))
	if pw+gw > 64 || pw+w > 64 {
		return nil, 0
	}
	cw := uint(0)
	for c := 0; cw < pw+gw; c++ {
		cw = rleWidths[c]
	}
	maxGap := 1<<gw - 1
	type patch struct {
		gap int
		v   uint64
	}
	var ps []patch
	at, zeros := 0, 0
	for i, v := range vs {
		p := uint64(int64(v)-min) >> w
		if p == 0 && !(zeros < 2 && rnd.Intn(60) == 0) {
			continue
		}
		if p == 0 {
			zeros++
		}
		for i-at > maxGap {
			ps = append(ps, patch{maxGap, 0})
			at += maxGap
		}
		ps = append(ps, patch{i - at, p})
		at = i
	}
	if len(ps) == 0 || len(ps) > 31 {
		return nil, 0
	}
	b := append(head9(2, code, len(vs)), byte((bw-1)<<5)|byte(pcode), byte((gw-1)<<5)|byte(len(ps)))
	bits := &bitWriter{b: b}
	bits.put(neg, 1)
	bits.put(abs, bw*8-1)
	for _, v := range vs {
		x := uint64(int64(v) - min)
		bits.put(x&(1<<w-1), w)
	}
	bits.align()
	for _, p := range ps {
		bits.put(0, cw-pw-gw)
		bits.put(uint64(p.gap), gw)
		bits.put(p.v, pw)
	}
	bits.align()
	return bits.b, len(vs)
}

func encodeBytes(rnd *rand.Rand, vals []byte, short bool) (s plainStream) {
	s.how, s.n = "bytes", len(vals)
	for i := 0; i < len(vals); {
		s.marks = append(s.marks, mark{len(s.b), i})
		rest := vals[i:]
		n := 1
		for n < len(rest) && n < 130 && rest[n] == rest[0] {
			n++
		}
		if n >= 3 && rnd.Intn(5) > 0 {
			if rnd.Intn(3) == 0 {
				n = 3 + rnd.Intn(n-2)
			}
			s.b = append(s.b, byte(n-3), rest[0])
			i += n
			continue
		}
		n = 128
		if short || rnd.Intn(3) == 0 {
			n = 1 + rnd.Intn(12)
		}
		if n > len(rest) {
			n = len(rest)
		}
		s.b = append(s.b, byte(256-n))
		s.b = append(s.b, rest[:n]...)
		i += n
	}
	return
}

func encodeBools(rnd *rand.Rand, vals []bool, short bool) (s plainStream) {
	bits := &bitWriter{}
	for _, v := range vals {
		x := uint64(0)
		if v {
			x = 1
		}
		bits.put(x, 1)
	}
	bits.align()
	s = encodeBytes(rnd, bits.b, short)
	s.how, s.n = "bools", len(vals)
	return
}

func encodeRaw(vals [][]byte) (s plainStream) {
	s.how, s.n = "raw", len(vals)
	for i, v := range vals {
		s.marks = append(s.marks, mark{len(s.b), i})
		s.b = append(s.b, v...)
	}
	return
}

// ---- file ----

type assembler struct {
	rnd  *rand.Rand
	head PlanHead
	d    *Data
}

// area compresses
func (a *assembler) area(b []byte, mode string) []byte {
	if a.head.Comp == "none" {
		return b
	}
	if mode == "original" || mode == "originals" {
		var out []byte
		for len(b) > 0 {
			n := a.head.Block
			if mode == "originals" {
				n = 1 + a.rnd.Intn(n)
			}
			if n > len(b) {
				n = len(b)
			}
			out = append(out, byte(n<<1|1), byte(n>>7), byte(n>>15))
			out = append(out, b[:n]...)
			b = b[n:]
		}
		return out
	}
	if mode == "full" || mode == "one" {
		return fullChunks(b, a.head.Block)
	}
	size := a.head.Block
	if len(b)/size > 300 {
		size = a.head.Block
	} else if len(b) > 20 && size > len(b) && a.rnd.Intn(2) == 0 {
		size = 1 + a.rnd.Intn(len(b))
	}
	return chunked(b, a.rnd, size, false)
}

// cells of a column as the stored values of rows
func (a *assembler) stream(col, kind int, dict map[string]int, words []string, slots, filled []int) plainStream {
	c := a.d.Cols[col]
	cells := a.d.Cells[col]
	rnd, short := a.rnd, a.head.Runs == "short"
	num := func(x Cell) uint64 {
		return uint64(x[1])<<48 | uint64(x[2])<<32 | uint64(x[3])<<16 | uint64(x[4])
	}
	text := func(x Cell) []byte {
		b := make([]byte, len(x)-1)
		for i := range b {
			b[i] = byte(x[i+1])
		}
		return b
	}
	var us []uint64
	var bs []byte
	var raw [][]byte
	switch kind {
	case 0:
		v := make([]bool, len(slots))
		for i, r := range slots {
			v[i] = cells[r][0] == 1
		}
		return encodeBools(rnd, v, short)
	case 2:
		if dict != nil {
			for _, w := range words {
				us = append(us, uint64(len(w)))
			}
		} else {
			for _, r := range filled {
				us = append(us, uint64(len(cells[r])-1))
			}
		}
		return encodeInts(rnd, us, false, short)
	case 3:
		for _, w := range words {
			raw = append(raw, []byte(w))
		}
		return encodeRaw(raw)
	case 5:
		if c.Kind == "decimal" {
			for _, r := range filled {
				us = append(us, uint64(int64(cells[r][5])))
			}
			return encodeInts(rnd, us, true, short)
		}
		for _, r := range filled {
			n := uint64(cells[r][5])<<16 | uint64(cells[r][6])
			z := uint64(0)
			if n > 0 {
				for z < 9 && n%10 == 0 {
					n, z = n/10, z+1
				}
				if z < 2 {
					for ; z > 0; z-- {
						n *= 10
					}
				} else {
					z--
				}
			}
			us = append(us, n<<3|z)
		}
		return encodeInts(rnd, us, false, short)
	}
	switch c.Kind {
	case "boolean":
		v := []bool{}
		for _, r := range filled {
			v = append(v, cells[r][1] == 1)
		}
		return encodeBools(rnd, v, short)
	case "byte":
		for _, r := range filled {
			bs = append(bs, byte(cells[r][1]))
		}
		return encodeBytes(rnd, bs, short)
	case "float":
		for _, r := range filled {
			x := cells[r]
			raw = append(raw, []byte{byte(x[2]), byte(x[2] >> 8), byte(x[1]), byte(x[1] >> 8)})
		}
		return encodeRaw(raw)
	case "double":
		for _, r := range filled {
			v := num(cells[r])
			b := []byte{}
			for i := uint(0); i < 64; i += 8 {
				b = append(b, byte(v>>i))
			}
			raw = append(raw, b)
		}
		return encodeRaw(raw)
	case "decimal":
		for _, r := range filled {
			raw = append(raw, putUvarint(nil, zig(int64(num(cells[r])))))
		}
		s := encodeRaw(raw)
		return s
	case "date":
		for _, r := range filled {
			us = append(us, uint64(daysOf(cells[r][1], cells[r][2], cells[r][3])))
		}
		return encodeInts(rnd, us, true, short)
	case "binary":
		for _, r := range filled {
			raw = append(raw, text(cells[r]))
		}
		return encodeRaw(raw)
	case "string", "char", "varchar":
		if dict != nil {
			for _, r := range filled {
				us = append(us, uint64(dict[string(text(cells[r]))]))
			}
			return encodeInts(rnd, us, false, short)
		}
		for _, r := range filled {
			raw = append(raw, text(cells[r]))
		}
		return encodeRaw(raw)
	}
	for _, r := range filled {
		us = append(us, num(cells[r]))
	}
	return encodeInts(rnd, us, true, short)
}

func daysOf(y, m, d int) int64 {
	z := int64(y - 1)
	n := 365*z + z/4 - z/100 + z/400 - (365*1969 + 1969/4 - 1969/100 + 1969/400)
	for i := 1; i < m; i++ {
		switch i {
		case 2:
			n += 28
			if y%4 == 0 && y%100 != 0 || y%400 == 0 {
				n++
			}
		case 4, 6, 9, 11:
			n += 30
		default:
			n += 31
		}
	}
	return n + int64(d) - 1
}

// position of value number n of a stream
func (a *assembler) position(s plainStream, laid *Area, n int, last *mark) []int {
	// a run that starts not behind the value
	unit := n
	if s.how == "bools" {
		unit = n / 8
	}
	k := sort.Search(len(s.marks), func(i int) bool { return s.marks[i].n > unit }) - 1
	var m mark
	switch {
	case len(s.marks) == 0:
	case k < 0:
		k = 0
		m = s.marks[0]
	default:
		m = s.marks[k]
	}
	ends := s.how == "raw" && n == len(s.marks)
	if ends {
		m = mark{len(s.b), n}
	} else if s.how != "raw" && k >= 0 && len(s.marks) > 0 {
		end := s.marks[len(s.marks)-1]
		if n == s.n && n > end.n && s.how == "rle" && a.rnd.Intn(2) == 0 || s.how == "bytes" && n == s.n && a.rnd.Intn(2) == 0 ||
			s.how == "bools" && n == s.n && n%8 == 0 && a.rnd.Intn(2) == 0 {
			m = mark{len(s.b), unit} // behind the last run
		} else if a.head.Skips == "far" && k > 0 && a.rnd.Intn(2) == 0 {
			m = s.marks[k-1-a.rnd.Intn(1+k/4)]
		}
	}
	if m.at < last.at { // positions never go back
		m = *last
	}
	*last = m
	var p []int
	if laid == nil {
		p = append(p, m.at)
	} else {
		// the chunk, any that may hold the place
		j := sort.Search(len(laid.ends), func(i int) bool { return laid.ends[i] > m.at })
		switch {
		case len(laid.ends) == 0:
			p = append(p, 0, 0)
		case j == len(laid.ends) && (a.rnd.Intn(2) == 0):
			p = append(p, laid.Raw, 0)
		case j == len(laid.ends):
			j--
			from := 0
			if j > 0 {
				from = laid.ends[j-1]
			}
			p = append(p, laid.offs[j], m.at-from)
		default:
			from := 0
			if j > 0 {
				from = laid.ends[j-1]
			}
			if j > 0 && m.at == from && a.rnd.Intn(3) == 0 { // end of the chunk before
				b := 0
				if j > 1 {
					b = laid.ends[j-2]
				}
				p = append(p, laid.offs[j-1], m.at-b)
			} else {
				p = append(p, laid.offs[j], m.at-from)
			}
		}
	}
	switch s.how {
	case "rle", "bytes":
		p = append(p, n-m.n)
	case "bools":
		p = append(p, unit-m.n, n%8)
	}
	return p
}

func fullChunks(b []byte, size int) (out []byte) {
	for len(b) > 0 {
		n := size
		if n > len(b) {
			n = len(b)
		}
		body, orig := deflated(b[:n]), 0
		if len(body) >= n {
			body, orig = b[:n], 1
		}
		h := len(body)<<1 | orig
		out = append(append(out, byte(h), byte(h>>8), byte(h>>16)), body...)
		b = b[n:]
	}
	return
}

func (a *assembler) statistics(col, from, to int) []byte {
	count, null := 0, false
	c := a.d.Cols[col]
	for r := from; r < to; r++ {
		if a.d.Cells[col][r][0] == 1 {
			count++
		} else if c.Parent < 0 || a.d.Cells[c.Parent][r][0] == 1 {
			null = true
		}
	}
	b := pbNum(nil, 1, uint64(count))
	if a.head.HasNull == "set" {
		v := uint64(0)
		if null {
			v = 1
		}
		b = pbNum(b, 10, v)
	}
	return b
}

// assemble makes the file of a plan
func assemble(d *Data, p *FilePlan, seed int64) []byte {
	a := &assembler{rnd: rand.New(rand.NewSource(seed)), head: p.Head, d: d}
	rnd := a.rnd
	comp := p.Head.Comp != "none"
	out := []byte("ORC")
	type info struct{ off, ilen, dlen, flen, rows int }
	var infos []info
	row := 0
	for _, ps := range p.Stripes {
		from, to := row, row+ps.Rows
		row = to
		in := info{off: len(out), rows: ps.Rows}
		slots := make([][]int, len(d.Cols))
		filled := make([][]int, len(d.Cols))
		dicts := make([]map[string]int, len(d.Cols))
		words := make([][]string, len(d.Cols))
		for c, col := range d.Cols {
			for r := from; r < to; r++ {
				if col.Parent < 0 || d.Cells[col.Parent][r][0] == 1 {
					slots[c] = append(slots[c], r)
					if d.Cells[c][r][0] == 1 {
						filled[c] = append(filled[c], r)
					}
				}
			}
		}
		for _, c := range ps.Dict {
			dicts[c] = map[string]int{}
			for _, r := range filled[c] {
				b := []byte{}
				for _, x := range d.Cells[c][r][1:] {
					b = append(b, byte(x))
				}
				if _, ok := dicts[c][string(b)]; !ok {
					dicts[c][string(b)] = len(words[c])
					words[c] = append(words[c], string(b))
				}
			}
			switch rnd.Intn(3) { // as they come, sorted, in any order
			case 0:
				sort.Strings(words[c])
			case 1:
				for i, j := range rnd.Perm(len(words[c])) {
					words[c][i], words[c][j] = words[c][j], words[c][i]
				}
			}
			for i, w := range words[c] {
				dicts[c][w] = i
			}
		}
		plain := map[[2]int]plainStream{}
		laid := map[[2]int][]byte{}
		areas := map[[2]int]*Area{}
		for _, s := range ps.Streams {
			k := [2]int{s[0], s[1]}
			if k[1] >= 6 {
				continue
			}
			x := a.stream(k[0], k[1], dicts[k[0]], words[k[0]], slots[k[0]], filled[k[0]])
			plain[k] = x
			mode := a.head.Chunks
			laid[k] = a.area(x.b, mode)
			if comp {
				areas[k] = readArea(laid[k], true)
			}
		}
		var foot []byte
		var data []byte
		for _, s := range ps.Streams {
			k := [2]int{s[0], s[1]}
			b := laid[k]
			switch {
			case k[1] == 6:
				b = a.area(a.index(k[0], from, to, slots[k[0]], filled[k[0]], plain, areas, dicts[k[0]] != nil), a.head.Chunks)
				in.ilen += len(b)
			case k[1] > 6: // a bloom filter nobody reads
				b = make([]byte, rnd.Intn(40))
				rnd.Read(b)
				b = a.area(pbBytes(nil, 1, b), "full")
				in.ilen += len(b)
			default:
				in.dlen += len(b)
			}
			sm := pbNum(nil, 1, uint64(k[1]))
			if k[1] == 0 && rnd.Intn(2) == 0 { // the default of the field
				sm = nil
			}
			sm = pbNum(sm, 2, uint64(k[0]))
			sm = pbNum(sm, 3, uint64(len(b)))
			foot = pbBytes(foot, 1, sm)
			data = append(data, b...)
		}
		for c, col := range d.Cols {
			e := 0
			switch col.Kind {
			case "struct", "boolean", "byte", "float", "double":
			case "string", "char", "varchar":
				e = 2
				if dicts[c] != nil {
					e = 3
				}
			default:
				e = 2
			}
			m := pbNum(nil, 1, uint64(e))
			if e == 3 {
				m = pbNum(m, 2, uint64(len(words[c])))
			}
			foot = pbBytes(foot, 2, m)
		}
		if a.head.Unknown {
			foot = pbBytes(foot, 3, []byte("UTC"))
			foot = pbBytes(foot, 77, []byte("what a later version adds"))
		}
		out = append(out, data...)
		fb := a.area(foot, a.head.Footer)
		in.flen = len(fb)
		out = append(out, fb...)
		for i := 0; i < ps.Gap; i++ {
			out = append(out, 0)
		}
		infos = append(infos, in)
	}
	end := 3
	if n := len(infos); n > 0 {
		end = infos[n-1].off + infos[n-1].ilen + infos[n-1].dlen + infos[n-1].flen
		out = out[:end] // padding is between stripes
	}
	if p.Head.Content == "body" {
		end -= 3
	}
	var foot []byte
	foot = pbNum(foot, 1, 3)
	foot = pbNum(foot, 2, uint64(end))
	for _, in := range infos {
		s := pbNum(nil, 1, uint64(in.off))
		s = pbNum(s, 2, uint64(in.ilen))
		s = pbNum(s, 3, uint64(in.dlen))
		s = pbNum(s, 4, uint64(in.flen))
		s = pbNum(s, 5, uint64(in.rows))
		foot = pbBytes(foot, 3, s)
	}
	kinds := map[string]int{"boolean": 0, "byte": 1, "short": 2, "int": 3, "long": 4, "float": 5, "double": 6, "string": 7, "binary": 8,
		"timestamp": 9, "struct": 12, "decimal": 14, "date": 15, "varchar": 16, "char": 17}
	for _, c := range d.Cols {
		t := pbNum(nil, 1, uint64(kinds[c.Kind]))
		if len(c.Children) > 0 {
			t = pbPacked(t, 2, c.Children)
		}
		for _, n := range c.Names {
			t = pbBytes(t, 3, []byte(n))
		}
		switch c.Kind {
		case "char", "varchar":
			t = pbNum(t, 4, 1000)
		case "decimal":
			t = pbNum(pbNum(t, 5, 18), 6, 10)
		}
		foot = pbBytes(foot, 4, t)
	}
	if p.Head.UserMeta > 0 {
		v := make([]byte, p.Head.UserMeta)
		rnd.Read(v)
		if rnd.Intn(2) == 0 { // compresses well
			v = make([]byte, p.Head.UserMeta)
		}
		foot = pbBytes(foot, 5, pbBytes(pbBytes(nil, 1, []byte("who.knows")), 2, v))
	}
	foot = pbNum(foot, 6, uint64(d.N))
	for c := range d.Cols {
		foot = pbBytes(foot, 7, a.statistics(c, 0, d.N))
	}
	if p.Head.Stride > 0 || rnd.Intn(2) == 0 {
		foot = pbNum(foot, 8, uint64(p.Head.Stride))
	}
	if a.head.Unknown {
		foot = pbNum(foot, 9, uint64(rnd.Intn(5)))
		foot = pbBytes(foot, 99, []byte("what a later version adds"))
	}
	var meta []byte
	if p.Head.Stats == "stripes" {
		at := 0
		for _, in := range infos {
			var m []byte
			for c := range d.Cols {
				m = pbBytes(m, 1, a.statistics(c, at, at+in.rows))
			}
			meta = pbBytes(meta, 1, m)
			at += in.rows
		}
	}
	mb := a.area(meta, a.head.Footer)
	fb := a.area(foot, a.head.Footer)
	out = append(append(out, mb...), fb...)
	ps := pbNum(nil, 1, uint64(len(fb)))
	if comp {
		ps = pbNum(ps, 2, 1)
	} else if rnd.Intn(2) == 0 {
		ps = pbNum(ps, 2, 0)
	}
	if comp || p.Head.BlockSize {
		ps = pbNum(ps, 3, uint64(p.Head.Block))
	}
	ps = pbPacked(ps, 4, []int{0, 12})
	if len(mb) > 0 || rnd.Intn(2) == 0 {
		ps = pbNum(ps, 5, uint64(len(mb)))
	}
	if rnd.Intn(2) == 0 {
		ps = pbNum(ps, 6, uint64(rnd.Intn(10)))
	}
	ps = pbBytes(ps, 8000, []byte("ORC"))
	out = append(append(out, ps...), byte(len(ps)))
	return out
}

// index of a column: positions of present, data, length, secondary
func (a *assembler) index(col, from, to int, slots, filled []int, plain map[[2]int]plainStream, areas map[[2]int]*Area, dict bool) []byte {
	var b []byte
	var last [6]mark
	for r := from; r < to; r += a.head.Stride {
		var pos []int
		for _, kind := range []int{0, 1, 2, 5} {
			k := [2]int{col, kind}
			s, ok := plain[k]
			if !ok || kind == 2 && dict {
				continue
			}
			rows := filled
			if kind == 0 {
				rows = slots
			}
			n := sort.SearchInts(rows, r)
			pos = append(pos, a.position(s, areas[k], n, &last[kind])...)
		}
		var e []byte
		if len(pos) > 0 {
			e = pbPacked(nil, 1, pos)
		}
		to1 := r + a.head.Stride
		if to1 > to {
			to1 = to
		}
		if a.head.Stats != "file" {
			e = pbBytes(e, 2, a.statistics(col, r, to1))
		}
		b = pbBytes(b, 1, e)
	}
	return b
}

func deflated(b []byte) []byte {
	var z bytes.Buffer
	w, _ := flate.NewWriter(&z, 6)
	w.Write(b)
	w.Close()
	return z.Bytes()
}
