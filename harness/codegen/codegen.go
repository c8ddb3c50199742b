// Package codegen checks the sets of imports of generated code.
package codegen

import (
	"go/token"
	"strconv"
	"strings"

	"github.com/google/xtoproto/codegen"
	"github.com/google/xtoproto/zz_verif/nd"
	"github.com/google/xtoproto/zz_verif/vs"
)

var paths = []string{"a/x", "b/x", "b/x_go_proto", "a/x2", "c/go", "d/2", "x"}

var aliases = []string{"x", "x2", "_", "xpb", "", "x3"}

// result is what one call gave.
type result struct {
	path    string
	alias   string // of RegisterAliased
	aliased bool
	im      *codegen.Import
	err     error
}

func call(is *codegen.Imports, path int, alias int) result {
	r := result{path: paths[path]}
	if alias < 0 {
		r.im = is.Register(r.path)
		return r
	}
	r.aliased, r.alias = true, aliases[alias]
	r.im, r.err = is.RegisterAliased(r.path, r.alias)
	return r
}

// op is a choice of a call.
type op struct{ path, alias int }

func chooseOp(np, na int) op {
	return op{nd.Choose(np), nd.Choose(na+1) - 1}
}

func ident(s string) bool { return token.IsIdentifier(s) && s != "_" }

// one checks what a call gave on its own.
func one(is *codegen.Imports, r result) {
	if r.aliased {
		if r.err != nil {
			nd.Assert(r.im == nil, "error-without-import")
			if r.alias != "" {
				other := is.FindByPackageName(r.alias)
				nd.Assert(other != nil && other.Path() != r.path && r.alias != "_", "alias-refused-only-if-taken")
			}
			nd.Reach("refused")
			return
		}
		nd.Assert(r.alias != "", "empty-alias-refused")
		nd.Assert(r.im != nil && r.im.PackageName() == r.alias, "alias-as-asked")
	} else {
		nd.Assert(r.im != nil, "register-gives-an-import")
		nd.Assert(ident(r.im.PackageName()), "name-can-be-used-in-code")
	}
	im := r.im
	nd.Assert(im.Path() == r.path, "import-of-the-path")
	nd.Assert(im.Alias() == "" || im.Alias() == im.PackageName(), "alias-is-the-name")
	if im.Alias() == "" {
		nd.Assert(im.PackageName() == is.AssumedPackageName(r.path), "assumed-name-without-alias")
		nd.Assert(im.GoFragment() == strconv.Quote(r.path), "fragment")
	} else {
		nd.Assert(im.GoFragment() == im.Alias()+" "+strconv.Quote(r.path), "fragment")
	}
}

// all checks what the calls gave together.
func all(is *codegen.Imports, rs []result) {
	for i, r := range rs {
		if r.im == nil {
			continue
		}
		n := r.im.PackageName()
		for _, q := range rs[:i] {
			if q.im != nil && q.path != r.path && n != "_" {
				nd.Assert(q.im.PackageName() != n, "different-paths-have-different-names")
			}
			if q.im != nil && q.path == r.path && !q.aliased && !r.aliased {
				nd.Assert(q.im.PackageName() == n && q.im.Alias() == r.im.Alias(), "same-path-has-the-same-name")
			}
		}
		if n != "_" {
			f := is.FindByPackageName(n)
			nd.Assert(f != nil && f.Path() == r.path && f.PackageName() == n && f.Alias() == r.im.Alias(), "found-by-name")
		} else {
			nd.Assert(is.FindByPackageName("_") != nil, "found-by-name")
		}
		f := is.FindByImportPath(r.path)
		nd.Assert(f != nil && f.Path() == r.path, "found-by-path")
		if !r.aliased {
			again := is.Register(r.path)
			nd.Assert(again.PackageName() == n && again.Alias() == r.im.Alias() && again.Path() == r.path, "same-path-has-the-same-name")
			nd.Reach("registered")
			if r.im.Alias() != "" {
				nd.Reach("renamed")
			}
		}
	}
	// what was never asked for is not there
	nd.Assert(is.FindByImportPath("never/asked") == nil && is.FindByPackageName("asked") == nil, "nothing-else-found")
}

// History makes calls one after the other.
func History() {
	n := nd.Param("n", 3)
	np, na := nd.Param("paths", len(paths)), nd.Param("aliases", len(aliases))
	is := codegen.NewImports()
	var rs []result
	for i := 0; i < n; i++ {
		o := chooseOp(np, na)
		was := is.FindByImportPath(paths[o.path])
		r := call(is, o.path, o.alias)
		one(is, r)
		if was != nil && !r.aliased && ident(was.PackageName()) {
			nd.Assert(r.im.PackageName() == was.PackageName(), "known-path-keeps-its-name")
		}
		rs = append(rs, r)
	}
	all(is, rs)
}

// Fresh registers every path first: no path is renamed without need.
func Fresh() {
	p := nd.Choose(len(paths))
	im := codegen.NewImports().Register(paths[p])
	if a := codegen.GoToolsAssumedPackageName(paths[p]); ident(a) && !strings.HasSuffix(a, "_go_proto") {
		nd.Assert(im.Alias() == "", "not-renamed-without-need")
	}
	nd.Reach("fresh")
}

// Paths registers paths of arbitrary characters of a small set.
func Paths() {
	n := nd.Param("n", 3)
	k := nd.Param("k", 2)
	is := codegen.NewImports()
	var rs []result
	for i := 0; i < k; i++ {
		p := nd.StrIn("xv2/_-.", 1+nd.Choose(n))
		r := result{path: p, im: is.Register(p)}
		nd.Assert(ident(r.im.PackageName()), "name-can-be-used-in-code")
		nd.Assert(r.im.Path() == p, "import-of-the-path")
		nd.Assert(r.im.Alias() == "" || r.im.Alias() == r.im.PackageName(), "alias-is-the-name")
		rs = append(rs, r)
	}
	for i, r := range rs {
		for _, q := range rs[:i] {
			if q.path == r.path {
				nd.Assert(q.im.PackageName() == r.im.PackageName(), "same-path-has-the-same-name")
				nd.Reach("same")
			} else {
				nd.Assert(q.im.PackageName() != r.im.PackageName(), "different-paths-have-different-names")
				nd.Reach("different")
			}
		}
		again := is.Register(r.path)
		nd.Assert(again.PackageName() == r.im.PackageName() && again.Alias() == r.im.Alias(), "same-path-has-the-same-name")
	}
}

// Fragments writes paths of arbitrary bytes into import statements.
func Fragments() {
	p := nd.StrUpTo(nd.Param("n", 3))
	is := codegen.NewImports()
	var im *codegen.Import
	if nd.Choose(2) == 0 {
		im = is.Register("a/" + p)
	} else {
		im, _ = is.RegisterAliased("a/"+p, "al")
	}
	f := im.GoFragment()
	if a := im.Alias(); a != "" {
		nd.Assert(strings.HasPrefix(f, a+" "), "fragment-starts-with-the-alias")
		f = f[len(a)+1:]
		nd.Reach("aliased")
	}
	got, err := strconv.Unquote(f)
	nd.Assert(err == nil && got == "a/"+p, "fragment-quotes-the-path")
	nd.Reach("quoted")
}

// refName is the documented rule: the last element of the path that does not look like a major version, less a leading
// "go-", up to its first character that identifiers cannot have. For paths without empty, "." and ".." elements.
func refName(p string) string {
	el := strings.Split(p, "/")
	last := el[len(el)-1]
	if len(el) > 1 && len(last) > 1 && last[0] == 'v' {
		digits := true
		for i := 1; i < len(last); i++ {
			if last[i] < '0' || last[i] > '9' {
				digits = false
			}
		}
		if digits {
			last = el[len(el)-2]
		}
	}
	if strings.HasPrefix(last, "go-") {
		last = last[3:]
	}
	for i := 0; i < len(last); i++ {
		if last[i] == '-' || last[i] == '.' {
			return last[:i]
		}
	}
	return last
}

// Names compares assumed package names with the rule.
func Names() {
	n := nd.Param("n", 4)
	p := nd.StrIn("gov2/-.", 1+nd.Choose(n))
	if nd.Choose(2) == 1 {
		p = "a/go-x/" + p
	}
	for _, e := range strings.Split(p, "/") {
		nd.Assume(e != "" && e != "." && e != "..")
		nd.Assume(!strings.HasPrefix(e, "v-"))
	}
	nd.Assert(codegen.GoToolsAssumedPackageName(p) == refName(p), "assumed-name")
	nd.Reach("name")
}

// Custom uses names that a function of the caller gives.
func Custom() {
	names := []string{"x", "x2", "type", "", "9", "_", "a b", "x_go_proto", "a_b9"}
	a, b := names[nd.Choose(len(names))], names[nd.Choose(len(names))]
	is := codegen.NewImports(codegen.UseAssumedPackageNameFunc(func(p string) string {
		if p == "p/a" {
			return a
		}
		return b
	}))
	var rs []result
	for _, p := range []string{"p/a", "p/b"} {
		r := result{path: p, im: is.Register(p)}
		one(is, r)
		rs = append(rs, r)
	}
	all(is, rs)
	if ident(a) && !strings.HasSuffix(a, "_go_proto") {
		nd.Assert(rs[0].im.PackageName() == a && rs[0].im.Alias() == "", "custom-name-used")
	}
	nd.Reach("custom")
}

// Concurrent makes calls from several threads.
func Concurrent() {
	threads, n := nd.Param("threads", 2), nd.Param("n", 1)
	np, na := nd.Param("paths", 4), nd.Param("aliases", 3)
	is := codegen.NewImports()
	if nd.Choose(2) == 1 {
		is.Register("z/x")
	}
	ops := make([]op, threads*n)
	rs := make([]result, threads*n)
	for i := range ops {
		ops[i] = chooseOp(np, na)
		if i%n == 0 && i > 0 {
			// threads are alike: their first calls come in order
			nd.Assume(ops[i-n].path < ops[i].path || ops[i-n].path == ops[i].path && ops[i-n].alias <= ops[i].alias)
		}
	}
	var fs []func()
	for t := 0; t < threads; t++ {
		t := t
		fs = append(fs, func() {
			for i := t * n; i < (t+1)*n; i++ {
				rs[i] = call(is, ops[i].path, ops[i].alias)
			}
		})
	}
	vs.Run(fs...)
	for _, r := range rs {
		one(is, r)
	}
	all(is, rs)
}

// lookup finds an import in one of the ways there are.
func lookup(is *codegen.Imports, k int) {
	switch k {
	case 0, 1:
		n := []string{"x", "x2"}[k]
		f := is.FindByPackageName(n)
		nd.Assert(f == nil || f.PackageName() == n, "found-by-name")
		if f != nil {
			nd.Reach("found")
		}
	default:
		p := paths[k-2]
		f := is.FindByImportPath(p)
		nd.Assert(f == nil || f.Path() == p, "found-by-path")
		if f != nil {
			nd.Reach("found")
		}
	}
}

// Readers looks things up while another thread registers.
func Readers() {
	is := codegen.NewImports()
	if nd.Choose(2) == 1 {
		is.Register("b/x")
	}
	is.Register("c/x")
	o := chooseOp(nd.Param("paths", 3), nd.Param("aliases", 2))
	k := [3]int{nd.Choose(4), nd.Choose(4), nd.Choose(4)}
	var r result
	vs.Run(func() {
		r = call(is, o.path, o.alias)
	}, func() {
		lookup(is, k[0])
		lookup(is, k[1])
	}, func() {
		lookup(is, k[2])
	})
	one(is, r)
	all(is, []result{r})
}

// Three makes a call from each of three threads.
func Three() { Concurrent() }

// Two makes two calls from each of two threads.
func Two() { Concurrent() }

// Many registers many paths whose packages have the same name, then one of several kinds.
func Many() {
	k := []int{1, 2, 9, 10, 12, 25, 99, 101}[nd.Choose(nd.Param("k", 5))]
	is := codegen.NewImports()
	base := []string{"/x", "/x_go_proto", "/2"}[nd.Choose(3)]
	var rs []result
	for i := 0; i <= k; i++ {
		p := strconv.Itoa(i) + base
		rs = append(rs, result{path: p, im: is.Register(p)})
	}
	o := chooseOp(3, 3)
	rs = append(rs, call(is, o.path, o.alias))
	one(is, rs[len(rs)-1])
	one(is, rs[k])
	all(is, rs)
}
