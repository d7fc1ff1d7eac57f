package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// ---- columns ----

type Col struct {
	Id       int      `json:"id"`
	Kind     string   `json:"kind"`
	Enc      string   `json:"enc"`
	Nullable bool     `json:"nullable"`
	Children []int    `json:"children"`
	Names    []string `json:"names"`
	Parent   int      `json:"parent"`
}

var kindOf = map[string]pb.Type_Kind{
	"boolean": pb.Type_BOOLEAN, "byte": pb.Type_BYTE, "short": pb.Type_SHORT, "int": pb.Type_INT, "long": pb.Type_LONG,
	"float": pb.Type_FLOAT, "double": pb.Type_DOUBLE, "string": pb.Type_STRING, "char": pb.Type_CHAR,
	"varchar": pb.Type_VARCHAR, "binary": pb.Type_BINARY, "date": pb.Type_DATE, "timestamp": pb.Type_TIMESTAMP,
	"decimal": pb.Type_DECIMAL, "struct": pb.Type_STRUCT,
}

func kindName(k pb.Type_Kind) string {
	for n, v := range kindOf {
		if v == k {
			return n
		}
	}
	return fmt.Sprintf("kind%d", int(k))
}

var leafKinds = []string{"boolean", "byte", "short", "int", "long", "float", "double", "string", "char", "varchar", "binary", "date",
	"timestamp", "decimal"}

var encOf = map[string]pb.ColumnEncoding_Kind{"direct": pb.ColumnEncoding_DIRECT, "directv2": pb.ColumnEncoding_DIRECT_V2,
	"dictv2": pb.ColumnEncoding_DICTIONARY_V2}

func defaultEnc(kind string, rnd *rand.Rand) string {
	switch kind {
	case "boolean", "byte", "float", "double", "struct":
		return "direct"
	case "string", "char", "varchar":
		if rnd.Intn(2) == 0 {
			return "dictv2"
		}
	}
	return "directv2"
}

// schemaFromCols builds the library's schema, not normalized
func schemaFromCols(cols []Col) *api.TypeDescription {
	tds := make([]*api.TypeDescription, len(cols))
	for i, c := range cols {
		tds[i] = &api.TypeDescription{Id: uint32(i), Kind: kindOf[c.Kind], Encoding: encOf[c.Enc], HasNulls: c.Nullable}
	}
	for i, c := range cols {
		for j, ch := range c.Children {
			tds[i].Children = append(tds[i].Children, tds[ch])
			tds[i].ChildrenNames = append(tds[i].ChildrenNames, c.Names[j])
		}
	}
	return tds[0]
}

func colsFromSchema(td *api.TypeDescription) (cols []Col) {
	var walk func(t *api.TypeDescription, parent int)
	walk = func(t *api.TypeDescription, parent int) {
		at := len(cols)
		cols = append(cols, Col{Id: int(t.Id), Kind: kindName(t.Kind), Nullable: t.HasNulls, Parent: parent,
			Children: []int{}, Names: append([]string{}, t.ChildrenNames...)})
		for _, c := range t.Children {
			cols[at].Children = append(cols[at].Children, int(c.Id))
			walk(c, int(t.Id))
		}
	}
	walk(td, -1)
	return
}

// randomCols makes a schema of at most max columns in pre-order
func randomCols(rnd *rand.Rand, max int, kinds []string) []Col {
	if kinds == nil {
		kinds = leafKinds
	}
	var cols []Col
	var build func(parent int, depth int, nullAbove bool)
	build = func(parent int, depth int, nullAbove bool) {
		id := len(cols)
		c := Col{Id: id, Parent: parent, Children: []int{}, Names: []string{}}
		structOk := depth < 3 && len(cols)+1 < max
		if structOk && (depth == 0 && rnd.Intn(8) != 0 || depth > 0 && rnd.Intn(5) == 0) {
			c.Kind = "struct"
		} else {
			c.Kind = kinds[rnd.Intn(len(kinds))]
		}
		c.Enc = defaultEnc(c.Kind, rnd)
		if !nullAbove {
			if c.Kind == "struct" {
				c.Nullable = rnd.Intn(4) == 0
			} else {
				c.Nullable = rnd.Intn(2) == 0
			}
		}
		cols = append(cols, c)
		if c.Kind == "struct" {
			n := 1 + rnd.Intn(4)
			for i := 0; i < n && (i == 0 || len(cols) < max); i++ {
				cols[id].Children = append(cols[id].Children, len(cols))
				cols[id].Names = append(cols[id].Names, fieldName(rnd, i))
				build(id, depth+1, nullAbove || c.Nullable)
			}
		}
	}
	build(-1, 0, false)
	return cols
}

// wideCols makes a schema of more columns, or of deeper structs, than small counters have room for
func wideCols(rnd *rand.Rand, n int) []Col {
	col := func(kind string, parent int) Col {
		return Col{Kind: kind, Parent: parent, Children: []int{}, Names: []string{}, Enc: defaultEnc(kind, rnd)}
	}
	cols := []Col{col("struct", -1)}
	add := func(kind string, parent int) int {
		id := len(cols)
		c := col(kind, parent)
		c.Id = id
		c.Nullable = kind != "struct" && rnd.Intn(2) == 0
		cols[parent].Children = append(cols[parent].Children, id)
		cols[parent].Names = append(cols[parent].Names, fmt.Sprintf("c%d", id))
		cols = append(cols, c)
		return id
	}
	top := 0
	for len(cols) < n {
		if rnd.Intn(8) == 0 && len(cols) < 60 {
			top = add("struct", top)
		}
		add(leafKinds[rnd.Intn(len(leafKinds))], top)
	}
	return cols
}

// mixedCols makes a wide schema for one of 16, and how many rows it may have
func mixedCols(rnd *rand.Rand, k, max, rows int) ([]Col, int) {
	if k%16 == 11 {
		cols := wideCols(rnd, []int{34 + rnd.Intn(20), 66 + rnd.Intn(10), 130 + rnd.Intn(10), 258 + rnd.Intn(10)}[rnd.Intn(4)])
		if rows > 1+2400/len(cols) {
			rows = 1 + 2400/len(cols)
		}
		return cols, rows
	}
	return randomCols(rnd, max, nil), rows
}

func fieldName(rnd *rand.Rand, i int) string {
	switch rnd.Intn(10) {
	case 6:
		return fmt.Sprintf("Col%cNAME %d ", 'A'+rune(rnd.Intn(26)), i)
	case 7: // any characters
		var n []rune
		for k := 1 + rnd.Intn(5); k > 0; k-- {
			n = append(n, []rune{' ', '.', '"', '\\', '/', 0, '\n', '\t', '`', 0x7f, 'É', 'ß', 'ſ', 'İ', 0x301, 0xfeff, 0x10ffff, 0x2028, '_', '%', '$'}[rnd.Intn(21)])
		}
		return string(n)
	case 0:
		return fmt.Sprintf("字段%d", i)
	case 1:
		return fmt.Sprintf("a b_%d", i)
	case 2:
		return "same" // names need not differ for the format
	default:
		return fmt.Sprintf("c%d", i)
	}
}

// ---- cells: tuples of integers that fit TLC's 32 bits ----
// null is [0]; a value is [1, ...] with numbers as four 16 bit limbs of their 64 bit pattern, high limb first

type Cell []int

func limbs(u uint64) []int {
	return []int{int(u >> 48), int(u >> 32 & 0xffff), int(u >> 16 & 0xffff), int(u & 0xffff)}
}

func cellInt(v int64) Cell { return append(Cell{1}, limbs(uint64(v))...) }

func cellBytes(b []byte) Cell {
	c := make(Cell, len(b)+1)
	c[0] = 1
	for i, x := range b {
		c[i+1] = int(x)
	}
	return c
}

var nullCell = Cell{0}

// a cell no specification accepts
func badCell(n int) Cell { return Cell{9, n} }

func toCell(kind string, v api.Value) Cell {
	if v.Null {
		return nullCell
	}
	switch kind {
	case "struct":
		return Cell{1}
	case "boolean":
		if b, ok := v.V.(bool); ok {
			if b {
				return Cell{1, 1}
			}
			return Cell{1, 0}
		}
	case "byte":
		if b, ok := v.V.(byte); ok {
			return Cell{1, int(b)}
		}
	case "short":
		if b, ok := v.V.(int16); ok {
			return cellInt(int64(b))
		}
	case "int":
		if b, ok := v.V.(int32); ok {
			return cellInt(int64(b))
		}
	case "long":
		if b, ok := v.V.(int64); ok {
			return cellInt(b)
		}
	case "float":
		if b, ok := v.V.(float32); ok {
			return append(Cell{1}, limbs(uint64(math.Float32bits(b)))[2:]...)
		}
	case "double":
		if b, ok := v.V.(float64); ok {
			return append(Cell{1}, limbs(math.Float64bits(b))...)
		}
	case "string", "char", "varchar":
		if b, ok := v.V.(string); ok {
			return cellBytes([]byte(b))
		}
	case "binary":
		if b, ok := v.V.([]byte); ok {
			return cellBytes(b)
		}
	case "date":
		if b, ok := v.V.(api.Date); ok {
			y, m, d := time.Time(b).Date()
			return Cell{1, y, int(m), d}
		}
	case "timestamp":
		if b, ok := v.V.(api.Timestamp); ok {
			c := append(Cell{1}, limbs(uint64(b.Seconds))...)
			return append(c, int(b.Nanos>>16), int(b.Nanos&0xffff))
		}
	case "decimal":
		if b, ok := v.V.(api.Decimal64); ok {
			c := append(Cell{1}, limbs(uint64(b.Precision))...)
			return append(c, b.Scale)
		}
	}
	return badCell(1)
}

// ---- rows ----

// Data holds the rows of a file column by column, with the library's values and their cells
type Data struct {
	Cols  []Col
	N     int
	Vals  [][]api.Value
	Cells [][]Cell
}

func newData(cols []Col, n int, rnd *rand.Rand, prof Profile) *Data {
	d := &Data{Cols: cols, N: n, Vals: make([][]api.Value, len(cols)), Cells: make([][]Cell, len(cols))}
	nulls := make([][]bool, len(cols))
	for i, c := range cols {
		g := newGen(c.Kind, rnd, prof)
		var above []bool
		if c.Parent >= 0 {
			above = nulls[c.Parent]
		}
		np := newNullGen(rnd, n, prof)
		if pat := prof.nulls[i]; pat != nil {
			np = func(r int) bool { return pat[r] }
		}
		nulls[i] = make([]bool, n)
		d.Vals[i] = make([]api.Value, n)
		for r := 0; r < n; r++ {
			null := above != nil && above[r]
			if !null && c.Nullable {
				null = np(r)
			}
			nulls[i][r] = null
			if null {
				d.Vals[i][r] = api.Value{Null: true}
			} else if c.Kind != "struct" {
				d.Vals[i][r] = api.Value{V: g(r)}
			}
		}
	}
	d.fillCells()
	return d
}

func (d *Data) fillCells() {
	for i, c := range d.Cols {
		d.Cells[i] = make([]Cell, d.N)
		for r := 0; r < d.N; r++ {
			d.Cells[i][r] = toCell(c.Kind, d.Vals[i][r])
		}
	}
}

// vector makes a batch of rows from..to-1
func (d *Data) vector(from, to int) *api.ColumnVector {
	var build func(id int) *api.ColumnVector
	build = func(id int) *api.ColumnVector {
		c := d.Cols[id]
		v := &api.ColumnVector{Id: uint32(id), Kind: kindOf[c.Kind]}
		if c.Kind != "struct" || c.Nullable {
			v.Vector = append([]api.Value{}, d.Vals[id][from:to]...)
		}
		for _, ch := range c.Children {
			v.Children = append(v.Children, build(ch))
		}
		return v
	}
	return build(0)
}

// Profile steers generators
type Profile struct {
	Small    bool // small value space
	ShortStr bool
	MaxStr   int
	Wide     bool // any scale and location
	Lean     bool // one stream hardly grows
	Unique   bool // strings are not repeated
	nulls    map[int][]bool
}

// newNullGen decides nulls with runs, edges and noise
func newNullGen(rnd *rand.Rand, n int, prof Profile) func(r int) bool {
	kind := rnd.Intn(8)
	if prof.Lean {
		kind = 2
	}
	switch kind {
	case 0:
		return func(int) bool { return false }
	case 1:
		return func(int) bool { return true }
	case 2:
		return func(int) bool { return rnd.Intn(2) == 0 }
	case 3:
		return func(r int) bool { return r == 0 || r == n-1 }
	case 4: // a block of nulls
		a := rnd.Intn(n + 1)
		b := a + rnd.Intn(n+1)
		return func(r int) bool { return r >= a && r < b }
	case 5:
		return func(int) bool { return rnd.Intn(20) == 0 }
	case 6:
		k := 2 + rnd.Intn(9)
		return func(r int) bool { return r%k == 0 }
	default: // runs
		left, cur := 0, false
		return func(int) bool {
			if left == 0 {
				left, cur = 1+rnd.Intn(140), !cur
			}
			left--
			return cur
		}
	}
}

func clip(kind string, v int64) int64 {
	switch kind {
	case "short":
		return int64(int16(v))
	case "int":
		return int64(int32(v))
	}
	return v
}

// intGen makes sequences with the shapes run-length encoders distinguish
func intGen(rnd *rand.Rand, bits uint) func(r int) int64 {
	mode, left := 0, 0
	var base, delta int64
	var width uint
	pick := func() int64 {
		w := 1 + uint(rnd.Intn(int(bits)))
		u := rnd.Uint64()
		if w < 64 {
			u &= 1<<w - 1
		}
		switch rnd.Intn(12) {
		case 0:
			return 0
		case 1:
			return math.MaxInt64 >> (64 - bits)
		case 2:
			return math.MinInt64 >> (64 - bits)
		}
		if rnd.Intn(2) == 0 {
			return -int64(u)
		}
		return int64(u)
	}
	return func(r int) int64 {
		if left == 0 {
			mode = rnd.Intn(9)
			left = 1 + rnd.Intn(40)
			if rnd.Intn(4) == 0 {
				left = 1 + rnd.Intn(700)
			}
			if rnd.Intn(4) == 0 {
				left = 1 + rnd.Intn(12)
			}
			base = pick()
			delta = int64(rnd.Intn(9)) - 4
			if rnd.Intn(4) == 0 {
				delta = pick() >> uint(rnd.Intn(int(bits)))
			}
			width = 1 + uint(rnd.Intn(int(bits)))
		}
		left--
		var v int64
		rand64 := func(w uint) int64 {
			u := rnd.Uint64()
			if w < 64 {
				u &= 1<<w - 1
			}
			return int64(u)
		}
		switch mode {
		case 0: // repeat
			v = base
		case 1: // fixed delta
			v = base
			base += delta
		case 2: // monotone
			v = base
			base += rand64(1 + width/4)
		case 3:
			v = base
			base -= rand64(1 + width/4)
		case 4: // direct
			v = rand64(width)
			if rnd.Intn(2) == 0 {
				v = -v
			}
		case 5: // patched: narrow with few wide ones
			v = base>>8 + rand64(1+width/3)
			if rnd.Intn(25) == 0 {
				v += rand64(bits - 1)
			}
		case 6:
			v = rand64(4)
			if rnd.Intn(60) == 0 {
				v = rand64(width)
			}
		case 7:
			v = pick()
		case 8: // unsigned narrow
			v = rand64(1 + width/2)
		}
		return v
	}
}

// leanGen: values of which one stream hardly grows
func leanGen(kind string, rnd *rand.Rand) func(r int) interface{} {
	switch kind {
	case "short":
		return func(r int) interface{} { return int16(7) }
	case "int":
		return func(r int) interface{} { return int32(7) }
	case "long":
		return func(r int) interface{} { return int64(r) }
	case "boolean":
		return func(r int) interface{} { return true }
	case "byte":
		return func(r int) interface{} { return byte(7) }
	case "string", "char", "varchar":
		return func(r int) interface{} { return "x"[:rnd.Intn(12)/11] }
	case "binary":
		return func(r int) interface{} { return []byte("x"[:rnd.Intn(12)/11]) }
	case "date":
		return func(r int) interface{} { return api.Date(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)) }
	case "timestamp":
		nanos := nanoGen(rnd)
		return func(r int) interface{} { return api.Timestamp{Loc: time.UTC, Seconds: 7, Nanos: nanos()} }
	case "decimal":
		return func(r int) interface{} { return api.Decimal64{Precision: int64(r % 5), Scale: rnd.Intn(1 << 20)} }
	}
	return nil
}

func newGen(kind string, rnd *rand.Rand, prof Profile) func(r int) interface{} {
	if prof.Lean {
		if g := leanGen(kind, rnd); g != nil {
			return g
		}
	}
	bitsOf := map[string]uint{"short": 16, "int": 32, "long": 64}
	switch kind {
	case "short", "int", "long":
		g := intGen(rnd, bitsOf[kind])
		if prof.Small {
			g = func(int) int64 { return int64(rnd.Intn(7)) - 3 }
		}
		return func(r int) interface{} {
			v := g(r)
			switch kind {
			case "short":
				return int16(v)
			case "int":
				return int32(v)
			}
			return v
		}
	case "boolean":
		left, cur, mode := 0, false, 0
		return func(r int) interface{} {
			if left == 0 {
				left, mode, cur = 1+rnd.Intn(300), rnd.Intn(3), rnd.Intn(2) == 0
			}
			left--
			if mode == 0 {
				return rnd.Intn(2) == 0
			} else if mode == 1 {
				return r%(2+left%3) == 0
			}
			return cur
		}
	case "byte":
		left, mode := 0, 0
		var cur byte
		return func(r int) interface{} {
			if left == 0 {
				left, mode, cur = 1+rnd.Intn(150), rnd.Intn(3), byte(rnd.Intn(256))
				if rnd.Intn(3) == 0 {
					left = 1 + rnd.Intn(5)
				}
			}
			left--
			switch mode {
			case 0:
				return byte(rnd.Intn(256))
			case 1:
				return byte(rnd.Intn(2))
			}
			return cur
		}
	case "float":
		return func(r int) interface{} {
			switch rnd.Intn(6) {
			case 0:
				return float32(rnd.Intn(10))
			case 1:
				specials := []float32{0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32}
				if prof.Small {
					return float32(0)
				}
				return specials[rnd.Intn(len(specials))]
			}
			if prof.Small {
				return float32(rnd.Intn(1000)) / 4
			}
			return math.Float32frombits(rnd.Uint32()&^0x7f800000 | uint32(100+rnd.Intn(60))<<23)
		}
	case "double":
		return func(r int) interface{} {
			switch rnd.Intn(6) {
			case 0:
				return float64(rnd.Intn(10))
			case 1:
				specials := []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64}
				if prof.Small {
					return float64(0)
				}
				return specials[rnd.Intn(len(specials))]
			}
			if prof.Small {
				return float64(rnd.Intn(100000)) / 8
			}
			return math.Float64frombits(rnd.Uint64())
		}
	case "string", "char", "varchar", "binary":
		max := prof.MaxStr
		if max == 0 {
			max = 12
		}
		var pool []string
		word := func() string {
			n := rnd.Intn(max + 1)
			if rnd.Intn(60) == 0 && !prof.ShortStr {
				n = rnd.Intn(60 * (max + 1) / 12)
			}
			b := make([]byte, n)
			alpha := 2 + rnd.Intn(24)
			for i := range b {
				b[i] = byte('a' + rnd.Intn(alpha))
			}
			if kind == "binary" || rnd.Intn(12) == 0 {
				if kind == "binary" {
					for i := range b {
						b[i] = byte(rnd.Intn(256))
					}
				} else {
					return string(b) + "é日\x00"
				}
			}
			return string(b)
		}
		for i := 0; i < 2+rnd.Intn(30); i++ {
			pool = append(pool, word())
		}
		uniq := rnd.Intn(4)
		if prof.Unique {
			return func(r int) interface{} {
				s := strconv.FormatInt(int64(r)*7919%1000003, 36)
				if rnd.Intn(20) == 0 {
					s = pool[rnd.Intn(len(pool))]
				}
				if kind == "binary" {
					return []byte(s)
				}
				return s
			}
		}
		return func(r int) interface{} {
			s := ""
			if uniq == 0 && rnd.Intn(2) == 0 {
				s = word()
			} else {
				s = pool[rnd.Intn(len(pool))]
			}
			if kind == "binary" {
				return []byte(s)
			}
			return s
		}
	case "date":
		base := 1 + rnd.Intn(9999)
		g := intGen(rnd, 12)
		return func(r int) interface{} {
			y := base
			switch rnd.Intn(5) {
			case 0:
				y = 1 + rnd.Intn(9999)
			case 1:
				y = 1960 + rnd.Intn(20)
			}
			t := time.Date(y, time.Month(1+rnd.Intn(12)), 1+rnd.Intn(28), 0, 0, 0, 0, time.UTC)
			t = t.AddDate(0, 0, int(g(r)%60))
			if t.Year() < 1 || t.Year() > 9999 {
				t = time.Date(1969, 12, 31, 0, 0, 0, 0, time.UTC)
			}
			return api.Date(t)
		}
	case "timestamp":
		g := intGen(rnd, 40)
		if rnd.Intn(4) == 0 {
			g = intGen(rnd, 64)
		}
		if prof.Small {
			g = func(int) int64 { return int64(rnd.Intn(2000000)) - 1000000 }
		}
		nanos := nanoGen(rnd)
		if prof.Wide {
			return func(r int) interface{} {
				loc := zone(rnd.Intn(1000))
				if rnd.Intn(10) == 0 {
					loc = nil
				}
				return api.Timestamp{Loc: loc, Seconds: g(r), Nanos: nanos()}
			}
		}
		return func(r int) interface{} {
			return api.Timestamp{Loc: time.UTC, Seconds: g(r), Nanos: nanos()}
		}
	case "decimal":
		g := intGen(rnd, 64)
		if prof.Small {
			g = func(int) int64 { return int64(rnd.Intn(2000)) - 1000 }
		}
		sc := rnd.Intn(19)
		vary := rnd.Intn(3) == 0
		return func(r int) interface{} {
			s := sc
			if vary {
				s = rnd.Intn(19)
			}
			if prof.Wide && vary && rnd.Intn(2) == 0 {
				s = rnd.Intn(1<<uint(1+rnd.Intn(22))) - rnd.Intn(1<<uint(1+rnd.Intn(22)))
			}
			return api.Decimal64{Precision: g(r), Scale: s}
		}
	}
	return func(int) interface{} { return nil }
}

func nanoGen(rnd *rand.Rand) func() uint64 {
	return func() uint64 {
		switch rnd.Intn(4) {
		case 0:
			return uint64(rnd.Intn(1000000000))
		case 1:
			return 0
		case 2:
			return 999999999
		}
		n := uint64(1 + rnd.Intn(9))
		for i := rnd.Intn(9); i > 0; i-- {
			n *= 10
		}
		if rnd.Intn(2) == 0 {
			n *= uint64(1 + rnd.Intn(99))
		}
		return n % 1000000000
	}
}

// ---- options ----

type WOpts struct {
	Compression string `json:"compression"` // none zlib
	ChunkSize   int    `json:"chunk"`
	StripeSize  int    `json:"stripe"`
	WriteIndex  bool   `json:"index"`
	Stride      int    `json:"stride"`
}

func (o WOpts) opts() config.WriterOptions {
	w := config.DefaultWriterOptions()
	w.ChunkSize = o.ChunkSize
	w.StripeSize = o.StripeSize
	w.WriteIndex = o.WriteIndex
	w.IndexStride = o.Stride
	w.CompressionKind = pb.CompressionKind_ZLIB
	if o.Compression == "none" {
		w.CompressionKind = pb.CompressionKind_NONE
	}
	return w
}

func randomOpts(rnd *rand.Rand) WOpts {
	o := WOpts{Compression: "zlib"}
	if rnd.Intn(3) == 0 {
		o.Compression = "none"
	}
	chunks := []int{7, 16, 33, 64, 100, 256, 1000, 4096, 65536, 262144}
	o.ChunkSize = chunks[rnd.Intn(len(chunks))]
	stripes := []int{200, 1000, 5000, 20000, 1 << 28}
	o.StripeSize = stripes[rnd.Intn(len(stripes))]
	o.WriteIndex = rnd.Intn(2) == 0
	strides := []int{1, 3, 10, 50, 128, 512, 1000}
	o.Stride = strides[rnd.Intn(len(strides))]
	return o
}
