package main

// Models of libraries built on reflection: proto.Clone, text/template and go/format.

import (
	"go/format"
	"go/types"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// deepCopy copies a value of type t with everything it refers to (messages are trees).
func (w *worker) deepCopy(v V, t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, ok := v.p.(*V)
		if !ok {
			return v
		}
		n := new(V)
		*n = w.deepCopy(*c, u.Elem())
		return V{p: n}
	case *types.Slice:
		s, ok := v.p.([]V)
		if !ok {
			return v
		}
		out := make([]V, len(s))
		for i := range s {
			out[i] = w.deepCopy(s[i], u.Elem())
		}
		return V{p: out}
	case *types.Struct:
		a, ok := v.p.(*Agg)
		if !ok {
			return v
		}
		b := &Agg{f: make([]V, len(a.f))}
		for i := range a.f {
			f := u.Field(i)
			if !f.Exported() {
				b.f[i] = copyV(a.f[i])
				continue
			}
			b.f[i] = w.deepCopy(a.f[i], f.Type())
		}
		return V{p: b}
	case *types.Interface:
		i, ok := v.p.(*Iface)
		if !ok {
			return v
		}
		return V{p: &Iface{i.t, w.deepCopy(i.v, i.t.T)}}
	case *types.Map:
		m, ok := v.p.(*Map)
		if !ok {
			return v
		}
		n := &Map{kt: m.kt, idx: map[string]*mapEnt{}}
		nv := V{p: n}
		for _, e := range m.live() {
			w.mapSet(nv, e.k, w.deepCopy(e.v, u.Elem()), u.Key())
		}
		return nv
	}
	return v
}

type tmplVal struct {
	v V
	t types.Type // nil: no value
}

func (w *worker) tmplTree(name, text string) *parse.Tree {
	tr := parse.New(name)
	tr.Mode = parse.SkipFuncCheck
	out, err := tr.Parse(text, "", "", map[string]*parse.Tree{})
	if err != nil {
		w.unsupported("template %s: %v", name, err)
	}
	return out
}

func (w *worker) tmplField(x tmplVal, name string) tmplVal {
	for x.t != nil {
		switch u := x.t.Underlying().(type) {
		case *types.Interface:
			i, ok := x.v.p.(*Iface)
			if !ok {
				return tmplVal{}
			}
			x = tmplVal{i.v, i.t.T}
		case *types.Pointer:
			x = tmplVal{w.load(x.v), u.Elem()}
		case *types.Map:
			v, ok := w.mapGet(x.v, vStr(name), u.Key(), u.Elem())
			if !ok {
				return tmplVal{}
			}
			return tmplVal{v, u.Elem()}
		case *types.Struct:
			a := x.v.p.(*Agg)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name && u.Field(i).Exported() {
					return tmplVal{a.f[i], u.Field(i).Type()}
				}
			}
			w.unsupported("template field %s", name)
		default:
			w.unsupported("template field %s of %s", name, x.t)
		}
	}
	return tmplVal{}
}

func (w *worker) tmplArg(n parse.Node, dot tmplVal) tmplVal {
	switch n := n.(type) {
	case *parse.FieldNode:
		x := dot
		for _, id := range n.Ident {
			x = w.tmplField(x, id)
		}
		return x
	case *parse.DotNode:
		return dot
	case *parse.StringNode:
		return tmplVal{vStr(n.Text), types.Typ[types.String]}
	case *parse.NumberNode:
		if n.IsInt {
			return tmplVal{vInt(int(n.Int64)), types.Typ[types.Int]}
		}
	case *parse.PipeNode:
		return w.tmplPipe(n, dot)
	}
	w.unsupported("template node %s", n)
	return tmplVal{}
}

func (w *worker) tmplBox(x tmplVal) V {
	if x.t == nil {
		return V{}
	}
	if types.IsInterface(x.t) {
		return x.v
	}
	return V{p: &Iface{rtOf(x.t), x.v}}
}

func (w *worker) tmplPipe(p *parse.PipeNode, dot tmplVal) tmplVal {
	if len(p.Decl) > 0 {
		w.unsupported("template variable")
	}
	var last *tmplVal
	for _, c := range p.Cmds {
		var r tmplVal
		if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
			var args []V
			for _, a := range c.Args[1:] {
				args = append(args, w.tmplBox(w.tmplArg(a, dot)))
			}
			if last != nil {
				args = append(args, w.tmplBox(*last))
			}
			switch id.Ident {
			case "printf":
				i, ok := args[0].p.(*Iface)
				if !ok {
					w.unsupported("template printf")
				}
				r = tmplVal{w.sprintf(mustStr(w, i.v), args[1:], false), types.Typ[types.String]}
			case "print":
				r = tmplVal{w.sprint(args, false), types.Typ[types.String]}
			default:
				w.unsupported("template function %s", id.Ident)
			}
		} else {
			if len(c.Args) != 1 || last != nil {
				w.unsupported("template call %s", c)
			}
			r = w.tmplArg(c.Args[0], dot)
		}
		last = &r
	}
	return *last
}

func (w *worker) tmplTrue(x tmplVal) bool {
	if x.t == nil {
		return false
	}
	switch u := x.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLen(x.v) > 0
		}
		if u.Info()&types.IsBoolean != 0 {
			return w.branchV(x.v)
		}
	case *types.Slice, *types.Map:
		return w.lenOf(x.v, x.t) != 0
	case *types.Interface, *types.Pointer:
		if i, ok := x.v.p.(*Iface); ok {
			return w.tmplTrue(tmplVal{i.v, i.t.T})
		}
		return x.v.p != nil
	}
	w.unsupported("template condition on %s", x.t)
	return false
}

func (w *worker) tmplExec(n parse.Node, dot tmplVal, out *[]V) {
	switch n := n.(type) {
	case *parse.ListNode:
		if n != nil {
			for _, x := range n.Nodes {
				w.tmplExec(x, dot, out)
			}
		}
	case *parse.TextNode:
		*out = append(*out, strBytes(vStr(string(n.Text)))...)
	case *parse.CommentNode:
	case *parse.ActionNode:
		x := w.tmplPipe(n.Pipe, dot)
		if x.t == nil {
			*out = append(*out, strBytes(vStr("<no value>"))...)
			return
		}
		*out = append(*out, strBytes(w.sprint([]V{w.tmplBox(x)}, false))...)
	case *parse.IfNode:
		if w.tmplTrue(w.tmplPipe(n.Pipe, dot)) {
			w.tmplExec(n.List, dot, out)
		} else if n.ElseList != nil {
			w.tmplExec(n.ElseList, dot, out)
		}
	case *parse.WithNode:
		if x := w.tmplPipe(n.Pipe, dot); w.tmplTrue(x) {
			w.tmplExec(n.List, x, out)
		} else if n.ElseList != nil {
			w.tmplExec(n.ElseList, dot, out)
		}
	case *parse.RangeNode:
		x := w.tmplPipe(n.Pipe, dot)
		s, ok := x.t.Underlying().(*types.Slice)
		if !ok {
			w.unsupported("template range over %s", x.t)
		}
		es, _ := x.v.p.([]V)
		for _, e := range es {
			w.tmplExec(n.List, tmplVal{e, s.Elem()}, out)
		}
		if len(es) == 0 && n.ElseList != nil {
			w.tmplExec(n.ElseList, dot, out)
		}
	default:
		w.unsupported("template node %s", n)
	}
}

func init() {
	for _, pkg := range []string{"github.com/golang/protobuf", "google.golang.org/protobuf"} {
		reg(pkg+"/proto.Clone", func(w *worker, a []V) V {
			w.needImpure()
			i, ok := a[0].p.(*Iface)
			if !ok {
				return a[0]
			}
			return V{p: &Iface{i.t, w.deepCopy(i.v, i.t.T)}}
		})
	}
	// a template is kept as its name and text (in field leftDelim)
	reg("text/template.New", func(w *worker, a []V) V {
		return w.newObj(w.pkgType("text/template", "Template"), a[0])
	})
	reg("(*text/template.Template).Parse", func(w *worker, a []V) V {
		c := a[0].p.(*V)
		ag := c.p.(*Agg)
		w.tmplTree(mustStr(w, ag.f[0]), mustStr(w, a[1]))
		w.setCell(&ag.f[3], a[1])
		return tup(a[0], V{})
	})
	reg("(*text/template.Template).Execute", func(w *worker, a []V) V {
		w.needImpure()
		ag := w.load(a[0]).p.(*Agg)
		tr := w.tmplTree(mustStr(w, ag.f[0]), mustStr(w, ag.f[3]))
		dot := tmplVal{a[2], types.NewInterfaceType(nil, nil)}
		var out []V
		w.tmplExec(tr.Root, dot, &out)
		r := w.writeTo(a[1], mkStr(out))
		return r.p.(Tuple)[1]
	})
	reg("(google.golang.org/protobuf/internal/impl.Export).MessageStringOf", func(w *worker, a []V) V { return vStr(opaqueMark) })
	// formatting: text is left as it is; concrete text that go/format rejects is an error
	reg("go/format.Source", func(w *worker, a []V) V {
		w.needImpure()
		b, _ := a[0].p.([]V)
		s, ok := concreteStr(mkStr(b))
		if !ok {
			return tup(a[0], V{})
		}
		if _, err := format.Source([]byte(s)); err != nil {
			return tup(V{}, w.mkError(vStr(err.Error())))
		}
		return tup(a[0], V{})
	})
}

func init() {
	// a file of the descriptor builder is printed by a function of the harness; native runs print it for good
	reg("(*github.com/jhump/protoreflect/desc/builder.FileBuilder).Build", func(w *worker, a []V) V {
		c := new(V)
		*c = a[0]
		return tup(V{p: c}, V{})
	})
	reg("(*github.com/jhump/protoreflect/desc/protoprint.Printer).PrintProtoToString", func(w *worker, a []V) V {
		var c *V
		i, ok := a[1].p.(*Iface)
		if ok {
			c, ok = i.v.p.(*V)
		}
		var p *ssa.Package
		for _, q := range w.eng.prog.AllPackages() {
			if q.Pkg.Path() == repoModule+"/zz_verif/xmlinfer" {
				p = q
			}
		}
		if !ok || p == nil || p.Func("Print") == nil {
			w.unsupported("printing of a descriptor")
		}
		return tup(w.callV(V{p: &Closure{fn: cfnOf(p.Func("Print"))}}, []V{*c}, nil), V{})
	})
}
