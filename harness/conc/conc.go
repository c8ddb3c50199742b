// Package conc checks what several threads may use at once: file sets and the registries of CSV coders (P31).
package conc

import (
	"github.com/google/xtoproto/textpos"
	"github.com/google/xtoproto/zz_verif/nd"
	"github.com/google/xtoproto/zz_verif/vs"
)

// in reports whether the file has the position.
func in(f *textpos.File, p textpos.Pos) bool {
	return f.Base() <= int(p) && int(p) <= f.Base()+f.Size()
}

// FileSets adds files to a set, and looks files and positions up, from several threads. Sizes and positions are arbitrary.
func FileSets() {
	s := textpos.NewFileSet()
	first := s.AddFile("first", -1, int(nd.Uint16()))
	size := [2]int{int(nd.Uint16()), int(nd.Uint16())}
	p := textpos.Pos(nd.Uint16())
	var added [2]*textpos.File
	lookup := func(p textpos.Pos) {
		switch nd.Choose(3) {
		case 0:
			f := s.File(p)
			nd.Assert(f == nil || in(f, p), "file-has-the-position")
			nd.Assert(nd.Implies(nd.And(int(p) >= first.Base(), int(p) <= first.Base()+first.Size()), f == first), "file-added-before-is-found")
			if f != nil && f != first {
				nd.Reach("found-new")
			}
		case 1:
			q := s.Position(p)
			nd.Assert(nd.Implies(nd.And(int(p) >= first.Base(), int(p) <= first.Base()+first.Size()), q.FileName() == "first" && q.Offset() == int(p)-first.Base()), "position-in-file")
		default:
			b := s.Base()
			nd.Assert(b > first.Base()+first.Size(), "base-after-files")
			n := 0
			s.Iterate(func(f *textpos.File) bool {
				nd.Assert(n > 0 || f == first, "files-in-order")
				nd.Assert(s.Base() > f.Base(), "set-can-be-used-from-the-iteration")
				n++
				return true
			})
			nd.Assert(n >= 1, "files-listed")
			if n == 2 {
				nd.Reach("listed-one-new")
			}
		}
	}
	fs := []func(){
		func() { added[0] = s.AddFile("a", -1, size[0]) },
		func() { lookup(p) },
	}
	if nd.Choose(2) == 1 {
		fs = append(fs, func() { added[1] = s.AddFile("b", -1, size[1]) })
	} else {
		fs = append(fs, func() { lookup(p) })
	}
	vs.Run(fs...)
	// the files lie one after the other
	last := first
	n := 0
	s.Iterate(func(f *textpos.File) bool {
		n++
		if f != first {
			nd.Assert(f.Base() == last.Base()+last.Size()+1, "files-do-not-overlap")
			k := 0
			if f == added[1] {
				k = 1
			}
			nd.Assert(f == added[k] && f.Size() == size[k] && f.Name() == []string{"a", "b"}[k], "file-as-added")
		}
		last = f
		return true
	})
	want := 2
	if added[1] != nil {
		want = 3
	}
	nd.Assert(n == want && s.Base() == last.Base()+last.Size()+1, "every-file-listed")
	f := s.File(p)
	for _, g := range []*textpos.File{first, added[0], added[1]} {
		if g != nil {
			nd.Assert(nd.Iff(nd.And(int(p) >= g.Base(), int(p) <= g.Base()+g.Size()), f == g), "file-of-the-position")
		}
	}
	nd.Reach("done")
}

// Files changes the line table of a file and reads it, from several threads.
func Files() {
	s := textpos.NewFileSet()
	f := s.AddFile("f", -1, 40)
	nd.Assert(f.SetLines([]int{0, 10, 20}), "lines-set")
	at := nd.IntRange(21, 45)
	off := nd.IntRange(0, 40)
	change := func() {
		switch nd.Choose(4) {
		case 0:
			f.AddLine(at)
		case 1:
			f.MergeLine(1)
		case 2:
			f.SetLines([]int{0, 5})
		case 3:
			f.SetLinesForContent([]byte("123456789\n12345678901234567890123456789\n"))
		}
	}
	read := func() {
		switch nd.Choose(4) {
		case 0:
			n := f.LineCount()
			nd.Assert(n >= 2 && n <= 5, "line-count") // no table in between has one line
		case 1:
			q := f.Position(f.Pos(off))
			l, c := q.Line().Ordinal(), q.Column().Ordinal()
			nd.Assert(l >= 1 && l <= 5 && c >= 1, "position-valid")
			nd.Assert(q.Offset() == off && c <= off+1 && nd.Implies(l == 1, c == off+1), "position-of-offset")
		case 2:
			l := f.LineStart(textpos.LineFromOrdinal(1))
			nd.Assert(f.Offset(l) == 0, "first-line-starts-the-file")
		default:
			p := f.PosForLineColumn(textpos.MakeLineColumn(textpos.LineFromOrdinal(2), textpos.ColumnFromOrdinal(1)))
			nd.Assert(p == textpos.NoPos || f.Offset(p) == 10 || f.Offset(p) == 5 || f.Offset(p) == 20 || f.Offset(p) == at, "second-line-starts-where-it-was-set")
			if p != textpos.NoPos {
				nd.Reach("second-line")
			}
		}
	}
	k := nd.Choose(2)
	vs.Run(change, read, func() {
		if k == 0 {
			f.AddLine(30)
		} else {
			read()
		}
	})
	n := f.LineCount()
	last := -1
	for i := 1; i <= n; i++ {
		o := f.Offset(f.LineStart(textpos.LineFromOrdinal(i)))
		nd.Assert(o > last && o < 40, "lines-in-order")
		last = o
	}
	nd.Reach("done")
}
