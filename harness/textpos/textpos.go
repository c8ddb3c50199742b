// Package textpos holds the harnesses for package textpos (P01, P02, P03).
package textpos

import (
	tp "github.com/google/xtoproto/textpos"
	"github.com/google/xtoproto/zz_verif/nd"
)

// spec: line starts implied by the newlines of content.
func lineStarts(content []byte) []int {
	out := []int{0}
	for i, b := range content {
		if b == '\n' && i+1 < len(content) {
			out = append(out, i+1)
		}
	}
	return out
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// ContentPositions: any content of n bytes in a file at any base, any offset: offset -> pos -> position -> (line, column) -> pos.
func ContentPositions() {
	n := nd.Choose(nd.Param("n", 5) + 1)
	content := nd.Bytes(n)
	fs := tp.NewFileSet()
	base := nd.IntRange(1, 1<<40)
	f := fs.AddFile("f", base, n)
	f.SetLinesForContent(content)
	off := nd.IntRange(0, n)
	p := f.Pos(off)
	nd.Assert(int(p) == base+off, "pos-value")
	nd.Assert(f.Offset(p) == off, "offset-roundtrip")
	// line and column implied by the content, counted independently of the code
	line, start := 1, 0
	for i := 0; i < n; i++ {
		nl := nd.And(content[i] == '\n', nd.And(i < off, i+1 < n))
		line = nd.Ite(nl, line+1, line)
		start = nd.Ite(nl, i+1, start)
	}
	for k := 0; k < 2; k++ {
		var pos tp.Position
		if k == 0 {
			pos = f.Position(p)
		} else {
			pos = fs.Position(p)
		}
		nd.Assert(pos.Offset() == off, "position-offset")
		nd.Assert(pos.FileName() == "f", "position-file")
		if n > 0 {
			nd.Assert(pos.IsValid(), "position-valid")
			nd.Assert(pos.Line().Ordinal() == line, "line")
			nd.Assert(pos.Column().Ordinal() == off-start+1, "column")
			nd.Assert(pos.Column().Offset() == off-start, "column-offset")
			nd.Assert(pos.Line().Offset() == line-1, "line-offset")
			nd.Assert(f.Line(p) == pos.Line(), "file-line")
		}
		nd.ObsInt("line", pos.Line().Ordinal())
		nd.ObsInt("col", pos.Column().Ordinal())
	}
	if n > 0 {
		back := f.PosForLineColumn(tp.MakeLineColumn(tp.LineFromOrdinal(line), tp.ColumnFromOffset(off-start)))
		nd.Assert(back == p, "linecol-roundtrip")
		nd.Assert(f.LineStart(tp.LineFromOrdinal(line)) == tp.Pos(base+start), "line-start")
		nd.Reach("nonempty")
	} else {
		nd.Reach("empty")
	}
	nd.Assert(f.LineCount() <= n+1, "line-count")
}

// Distinct: two different offsets never share a position, line:column or order.
func Distinct() {
	n := nd.Choose(nd.Param("n", 4)) + 1
	content := nd.Bytes(n)
	fs := tp.NewFileSet()
	f := fs.AddFile("f", -1, n)
	f.SetLinesForContent(content)
	a, b := nd.IntRange(0, n), nd.IntRange(0, n)
	nd.Assume(a < b)
	pa, pb := f.Position(f.Pos(a)), f.Position(f.Pos(b))
	nd.Assert(f.Pos(a) < f.Pos(b), "pos-monotone")
	la, lb := pa.Line().Ordinal(), pb.Line().Ordinal()
	nd.Assert(la <= lb, "line-monotone")
	nd.Assert(nd.Or(la < lb, pa.Column().Ordinal() < pb.Column().Ordinal()), "linecol-distinct")
	nd.Reach("two")
}

// LineColumnLookup: any line and column: the position returned has that line and column, or none exists.
func LineColumnLookup() {
	n := nd.Choose(nd.Param("n", 4) + 1)
	content := nd.Bytes(n)
	fs := tp.NewFileSet()
	base := nd.IntRange(1, 1<<40)
	f := fs.AddFile("f", base, n)
	f.SetLinesForContent(content)
	line, col := nd.Int(), nd.Int()
	p := f.PosForLineColumn(tp.MakeLineColumn(tp.LineFromOrdinal(line), tp.ColumnFromOrdinal(col)))
	if p == tp.NoPos {
		// refused: no offset of the file may have that line and column
		off := nd.IntRange(0, n)
		pos := f.Position(f.Pos(off))
		if n > 0 {
			nd.Assert(nd.Or(pos.Line().Ordinal() != line, pos.Column().Ordinal() != col), "linecol-missed")
		}
		nd.Reach("refused")
		return
	}
	nd.Assert(nd.And(int(p) >= base, int(p) <= base+n), "linecol-inside-file")
	pos := f.Position(p)
	nd.Assert(nd.And(pos.Line().Ordinal() == line, pos.Column().Ordinal() == col), "linecol-exact")
	nd.ObsInt("off", pos.Offset())
	nd.Reach("found")
}

// OutOfRange: offsets and positions outside the file are never turned into a valid position of it.
func OutOfRange() {
	n := nd.IntRange(0, 1<<40)
	base := nd.IntRange(1, 1<<40)
	fs := tp.NewFileSet()
	f := fs.AddFile("f", base, n)
	off := nd.Int()
	nd.Assume(nd.Or(off < 0, off > n))
	if nd.Choose(2) == 0 {
		var p tp.Pos
		if !panics(func() { p = f.Pos(off) }) {
			nd.Assert(p == tp.NoPos, "pos-out-of-range")
		}
		nd.Reach("pos")
		return
	}
	p := tp.Pos(base + off)
	nd.Assume(nd.Or(int(p) < base, int(p) > base+n))
	nd.Assert(panics(func() { f.Offset(p) }), "offset-out-of-range")
	var pos tp.Position
	if !panics(func() { pos = f.Position(p) }) {
		nd.Assert(!pos.IsValid(), "position-out-of-range")
	}
	nd.Assert(!fs.Position(p).IsValid(), "fileset-position-out-of-range")
	nd.Reach("offset")
}

// Units: the line/column unit conversions and the validity predicates are exact.
func Units() {
	x := nd.Int()
	nd.Assume(x > -(1 << 62))
	nd.Assume(x < 1<<62)
	nd.Assert(tp.LineFromOffset(x).Offset() == x, "line-offset")
	nd.Assert(tp.LineFromOffset(x).Ordinal() == x+1, "line-ordinal")
	nd.Assert(tp.LineFromOrdinal(x).Offset() == x-1, "line-ord-offset")
	nd.Assert(tp.ColumnFromOffset(x).Offset() == x, "col-offset")
	nd.Assert(tp.ColumnFromOffset(x).Ordinal() == x+1, "col-ordinal")
	nd.Assert(tp.ColumnFromOrdinal(x).Offset() == x-1, "col-ord-offset")
	nd.Assert(nd.Iff(tp.LineFromOrdinal(x).IsValid(), x >= 1), "line-valid")
	nd.Assert(nd.Iff(tp.ColumnFromOrdinal(x).IsValid(), x >= 1), "col-valid")
	lc := tp.MakeLineColumn(tp.LineFromOrdinal(x), tp.ColumnFromOrdinal(7))
	nd.Assert(lc.Line().Ordinal() == x && lc.Column().Ordinal() == 7, "pair")
	nd.Reach("units")
}

// LineColumnText: the printed form shows each valid coordinate and "-" for each invalid one.
func LineColumnText() {
	l, c := nd.IntRange(-3, 25), nd.IntRange(-3, 25)
	lc := tp.MakeLineColumn(tp.LineFromOrdinal(l), tp.ColumnFromOrdinal(c))
	s := lc.String()
	nd.ObsStr("s", s)
	k := 0
	for k < len(s) && s[k] != ':' {
		k++
	}
	nd.Assert(k < len(s), "colon")
	coord := func(t string, v int, id string) {
		if v < 1 {
			nd.Assert(t == "-", id+"-invalid")
			return
		}
		got := 0
		for i := 0; i < len(t); i++ {
			nd.Assert(nd.And(t[i] >= '0', t[i] <= '9'), id+"-digit")
			got = got*10 + int(t[i]-'0')
		}
		nd.Assert(got == v, id+"-value")
	}
	coord(s[:k], l, "line")
	coord(s[k+1:], c, "column")
	nd.Reach("text")
}

// FileSetOps: a symbolic history of AddFile and lookups; ranges stay disjoint and lookups find the owner whatever was cached.
func FileSetOps() {
	type rec struct {
		f          *tp.File
		base, size int
	}
	fs := tp.NewFileSet()
	var recs []rec
	next := 1
	k := nd.Param("files", 3)
	bad := nd.Choose(k + 1) // at most one request of the history is refused
	for i := 0; i < k; i++ {
		base, size := nd.Int(), nd.Int()
		// bases and sizes whose sum overflows the integer type are refused by a panic, decided by FileSetRefuses
		nd.Assume(nd.And(base < 1<<50, size < 1<<50))
		before := fs.Base()
		nd.Assert(before == next, "base-is-next")
		b := nd.Ite(base < 0, next, base)
		ok := nd.And(b >= next, size >= 0)
		if i == bad {
			nd.Assume(!ok)
			nd.Assert(panics(func() { fs.AddFile("f", base, size) }), "refused-when-overlapping")
			nd.Assert(fs.Base() == before, "refusal-changes-nothing")
			nd.Reach("refused")
			continue
		}
		nd.Assume(ok)
		f := fs.AddFile("f", base, size)
		nd.Assert(nd.And(f.Base() == b, f.Size() == size), "file-range")
		for _, r := range recs {
			nd.Assert(nd.Or(r.base+r.size < b, b+size < r.base), "disjoint")
		}
		recs = append(recs, rec{f, b, size})
		next = b + size + 1
	}
	// an arbitrary lookup moves the cache
	if nd.Choose(2) == 1 {
		fs.File(tp.Pos(nd.Int()))
	}
	lookups := nd.Param("lookups", 2)
	for j := 0; j < lookups; j++ {
		p := nd.Int()
		got := fs.File(tp.Pos(p))
		any := false
		for _, r := range recs {
			in := nd.And(p >= r.base, p <= r.base+r.size)
			any = nd.Or(any, in)
			nd.Assert(nd.Iff(got == r.f, in), "owner")
		}
		nd.Assert(nd.Iff(got == nil, !any), "no-owner")
		pos := fs.Position(tp.Pos(p))
		nd.Assert(nd.Iff(pos.IsValid(), any), "position-iff-owned")
		if got != nil {
			nd.Assert(pos.Offset() == p-got.Base(), "position-offset")
			nd.Reach("found")
		} else {
			nd.Reach("missing")
		}
	}
	count := 0
	fs.Iterate(func(f *tp.File) bool {
		nd.Assert(f == recs[count].f, "iterate-order")
		count++
		return true
	})
	nd.Assert(count == len(recs), "iterate-all")
}

// FileSetRefuses: a file whose range would wrap around the position type is refused.
func FileSetRefuses() {
	fs := tp.NewFileSet()
	base, size := nd.Int(), nd.Int()
	q := tp.Pos(nd.Int())
	nd.Assert(nd.And(fs.File(q) == nil, !fs.Position(q).IsValid()), "nothing-in-an-empty-set")
	refused := panics(func() { fs.AddFile("f", base, size) })
	if refused {
		nd.Assert(fs.Base() == 1, "refusal-changes-nothing")
		nd.Assert(nd.And(fs.File(q) == nil, !fs.Position(q).IsValid()), "nothing-in-an-empty-set")
		nd.Reach("refused")
		return
	}
	nd.Assert(size >= 0, "size")
	nd.Assert(fs.Base() > 1, "base-grows")
	b := nd.Ite(base < 0, 1, base)
	nd.Assert(nd.And(b >= 1, fs.Base() == b+size+1), "base")
	nd.Reach("accepted")
}

// LineTableOps: a symbolic history of line-table mutations against a list model.
func LineTableOps() {
	size := nd.IntRange(0, 1<<40)
	fs := tp.NewFileSet()
	f := fs.AddFile("f", 1, size)
	table := []int{0} // the model
	steps := nd.Param("steps", 3)
	for s := 0; s < steps; s++ {
		switch nd.Choose(3) {
		case 0:
			off := nd.Int()
			prev := -1
			if len(table) > 0 {
				prev = table[len(table)-1]
			}
			f.AddLine(off)
			if nd.And(nd.And(off > prev, off < size), nd.Or(len(table) > 0, off == 0)) {
				table = append(table, off)
				nd.Reach("added")
			}
		case 1:
			line := nd.Int()
			bad := panics(func() { f.MergeLine(line) })
			ok := nd.And(line >= 1, line < len(table))
			nd.Assert(nd.Iff(bad, !ok), "merge-refused")
			if !bad {
				k := nd.Concretize(line)
				t := append([]int(nil), table[:k]...)
				table = append(t, table[k+1:]...)
				nd.Reach("merged")
			}
		case 2:
			n := nd.Choose(nd.Param("set", 3) + 1)
			ls := make([]int, n)
			valid := true
			for i := range ls {
				ls[i] = nd.Int()
				lo := 0
				if i > 0 {
					lo = ls[i-1]
					valid = nd.And(valid, ls[i] > lo)
				} else {
					valid = nd.And(valid, ls[i] == 0)
				}
				valid = nd.And(valid, ls[i] < size)
			}
			got := f.SetLines(ls)
			nd.Assert(nd.Iff(got, valid), "setlines-verdict")
			if got {
				table = append([]int(nil), ls...)
				nd.Reach("set")
			} else {
				nd.Reach("set-refused")
			}
		}
		nd.Assert(f.LineCount() == len(table), "line-count")
		prev := -1
		for i, o := range table {
			p := f.LineStart(tp.LineFromOrdinal(i + 1))
			nd.Assert(int(p)-1 == o, "line-start")
			nd.Assert(nd.And(o > prev, nd.Or(i > 0, o == 0)), "strictly-increasing-from-0")
			nd.Assert(nd.Or(i == 0, o < size), "inside-file")
			prev = o
		}
	}
	if len(table) > 0 {
		a := nd.Int()
		nd.Assume(nd.And(a >= 0, a <= size))
		want := 0
		for _, o := range table {
			want = nd.Ite(o <= a, want+1, want)
		}
		nd.Assert(f.Line(f.Pos(a)).Ordinal() == want, "line-of-offset")
		nd.Reach("line-lookup")
	}
}

// LineTableContent: setting the table from content matches the newlines of that content, whatever the table was.
func LineTableContent() {
	n := nd.Choose(nd.Param("n", 5) + 1)
	content := nd.Bytes(n)
	fs := tp.NewFileSet()
	f := fs.AddFile("f", -1, n)
	if nd.Bool() {
		f.AddLine(nd.Int())
		f.AddLine(nd.Int())
	}
	f.SetLinesForContent(content)
	want := lineStarts(content)
	if n == 0 {
		nd.Assert(f.LineCount() == 0, "empty-table")
		nd.Reach("empty")
		return
	}
	nd.Assert(f.LineCount() == len(want), "content-line-count")
	for i, o := range want {
		nd.Assert(f.Offset(f.LineStart(tp.LineFromOffset(i))) == o, "content-line-start")
	}
	nd.ObsInt("lines", len(want))
	nd.Reach("content")
}

// ManyLines: a table of many lines of several lengths, any offset.
func ManyLines() {
	k := nd.Param("k", 24)
	fs := tp.NewFileSet()
	d := 1 + nd.Choose(3)
	size := k * 9 * d
	base := nd.IntRange(1, 1<<40)
	f := fs.AddFile("f", base, size)
	table := []int{0}
	for i := 1; i < k; i++ {
		o := table[i-1] + 1 + i*i%(7*d)
		f.AddLine(o)
		table = append(table, o)
	}
	nd.Assert(f.LineCount() == k, "line-count")
	off := nd.IntRange(0, 1<<40)
	nd.Assume(off <= size)
	line, start := 0, 0
	for _, o := range table {
		line = nd.Ite(o <= off, line+1, line)
		start = nd.Ite(o <= off, o, start)
	}
	pos := fs.Position(f.Pos(off))
	nd.Assert(pos.Line().Ordinal() == line, "line")
	nd.Assert(pos.Column().Offset() == off-start, "column")
	nd.Assert(pos.Offset() == off, "position-offset")
	nd.Assert(f.Line(f.Pos(off)).Ordinal() == line, "file-line")
	nd.Assert(f.PosForLineColumn(tp.MakeLineColumn(pos.Line(), pos.Column())) == f.Pos(off), "linecol-roundtrip")
	nd.Assert(f.LineStart(pos.Line()) == tp.Pos(base+start), "line-start")
	nd.Reach("many")
}

// ManyMerged: any line of a long table is merged with the next.
func ManyMerged() {
	k := nd.Param("k", 16)
	fs := tp.NewFileSet()
	size := nd.IntRange(1, 1<<40)
	f := fs.AddFile("f", 1, size)
	table := []int{0}
	for i := 1; i < k; i++ {
		o := nd.IntRange(1, 1<<40)
		nd.Assume(nd.And(o > table[i-1], o < size))
		table = append(table, o)
	}
	nd.Assert(f.SetLines(append([]int(nil), table...)), "set")
	m := 1 + nd.Choose(k-1)
	f.MergeLine(m)
	table = append(table[:m:m], table[m+1:]...)
	more := nd.Int()
	f.AddLine(more)
	if nd.And(more > table[len(table)-1], more < size) {
		table = append(table, more)
		nd.Reach("added")
	} else {
		nd.Reach("ignored")
	}
	nd.Assert(f.LineCount() == len(table), "line-count")
	for i, o := range table {
		nd.Assert(int(f.LineStart(tp.LineFromOffset(i)))-1 == o, "line-start")
	}
}

// ManyFiles: a position among many files, after another one was looked up.
func ManyFiles() {
	k, shift := nd.Param("k", 12), 0
	if nd.Bool() {
		k, shift = 3+nd.Choose(3), nd.Choose(5)
	}
	fs := tp.NewFileSet()
	if nd.Bool() {
		fs.AddFile("first", 1000, 1<<32)
	}
	var files []*tp.File
	var bases, sizes []int
	for i := 0; i < k; i++ {
		size := (i*i + shift) % 5
		base := fs.Base() + i*i%3
		files = append(files, fs.AddFile("f", base, size))
		bases, sizes = append(bases, base), append(sizes, size)
	}
	for j := 0; j < 2; j++ {
		p := nd.Int()
		got := fs.File(tp.Pos(p))
		own := -1
		for i := range files {
			own = nd.Ite(nd.And(p >= bases[i], p <= bases[i]+sizes[i]), i, own)
		}
		for i, f := range files {
			nd.Assert(nd.Iff(got == f, own == i), "owner")
		}
		if got == nil {
			nd.Reach("none")
		} else {
			nd.Reach("found")
		}
	}
}

// PositionText: a position prints as file name, line and column.
func PositionText() {
	name := []string{"f", "", "d/g.x"}[nd.Choose(3)]
	fs := tp.NewFileSet()
	f := fs.AddFile(name, -1, 40)
	l, c := nd.IntRange(1, 12), nd.IntRange(0, 12)
	starts := []int{0}
	for i := 1; i < 12; i++ {
		f.AddLine(2 * i)
		starts = append(starts, 2*i)
	}
	c = c % 2
	if l == 12 {
		c = nd.IntRange(0, 18)
	}
	s := f.Position(f.Pos(starts[l-1] + c)).String()
	num := func(v int) string {
		if v < 10 {
			return string([]byte{byte('0' + v)})
		}
		return string([]byte{byte('0' + v/10), byte('0' + v%10)})
	}
	want := num(l) + ":" + num(c+1)
	if name != "" {
		want = name + ":" + want
	}
	nd.ObsStr("s", s)
	nd.Assert(s == want, "text")
	nd.Assert(fs.Position(tp.NoPos).String() == "-", "no-position")
	e := fs.AddFile(name, -1, 0)
	e.SetLines(nil)
	if name != "" {
		nd.Assert(e.Position(e.Pos(0)).String() == name, "no-line")
	}
	nd.Reach("text")
}

// LongLines: three lines of any length.
func LongLines() {
	fs := tp.NewFileSet()
	base, size := nd.IntRange(1, 1<<50), nd.IntRange(2, 1<<50)
	f := fs.AddFile("f", base, size)
	a, b := nd.IntRange(1, 1<<50), nd.IntRange(1, 1<<50)
	nd.Assume(nd.And(a < b, b < size))
	if nd.Bool() {
		f.AddLine(a)
		f.AddLine(b)
	} else {
		nd.Assert(f.SetLines([]int{0, a, b}), "set-lines")
	}
	off := nd.IntRange(0, 1<<50)
	nd.Assume(off <= size)
	line := nd.Ite(off < a, 1, nd.Ite(off < b, 2, 3))
	start := nd.Ite(off < a, 0, nd.Ite(off < b, a, b))
	pos := fs.Position(f.Pos(off))
	nd.Assert(nd.And(pos.Line().Ordinal() == line, pos.Column().Offset() == off-start), "line-column")
	nd.Assert(pos.Offset() == off, "position-offset")
	nd.Assert(f.Offset(f.Pos(off)) == off, "offset")
	nd.Assert(f.PosForLineColumn(tp.MakeLineColumn(pos.Line(), pos.Column())) == f.Pos(off), "linecol-roundtrip")
	l, c := nd.IntRange(-1, 5), nd.Int()
	end := nd.Ite(l == 1, a-1, nd.Ite(l == 2, b-1, size))
	from := nd.Ite(l == 1, 0, nd.Ite(l == 2, a, b))
	p := f.PosForLineColumn(tp.MakeLineColumn(tp.LineFromOrdinal(l), tp.ColumnFromOrdinal(c)))
	in := nd.And(nd.And(l >= 1, l <= 3), nd.And(c >= 1, c-1 <= end-from))
	nd.Assert(nd.Ite(in, base+from+c-1, int(tp.NoPos)) == int(p), "looked-up")
	nd.Reach("long")
}
