package main

// Threads of the code under test. Package zz_verif/vs schedules them: every decision is an input of the harness. Here are
// its two primitives: each thread has a goroutine of its own, of which exactly one runs at a time, on the worker's state.

type sched struct{}

func (w *worker) goStmt(f V, args []V)   { w.unsupported("go statement") }
func (w *worker) chanSend(c, v V)        { w.unsupported("channel send") }
func (w *worker) chanRecv(c V) (V, bool) { w.unsupported("channel receive"); return V{}, false }
func (w *worker) chanClose(c V) {
	// closing a channel that nothing waits on, as package context does when it is initialised
	if ch, ok := c.p.(*Chan); ok && !ch.closed && w.initing > 0 {
		ch.closed = true
		return
	}
	w.unsupported("channel close")
}
func (w *worker) runMain(c *CFn) { w.callCFn(c, nil, nil, nil) }

type coro struct {
	wake chan coroMsg
	end  chan bool
}

// coroMsg is the baton: it wakes a thread, ends it, or brings it the panic that ended another one.
type coroMsg struct {
	kill     bool
	panicked any
}

func (w *worker) coros() *[]*coro {
	l, _ := w.nat["coros"].(*[]*coro)
	if l == nil {
		l = &[]*coro{{wake: make(chan coroMsg, 1)}}
		w.nat["coros"] = l
	}
	return l
}

func (w *worker) spawn(f V) int {
	w.needImpure()
	l := w.coros()
	c := &coro{wake: make(chan coroMsg, 1), end: make(chan bool)}
	*l = append(*l, c)
	go func() {
		defer close(c.end)
		if m := <-c.wake; m.kill {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if p, ok := r.(pathEnd); ok && p.status == "killed" {
					return
				}
				(*l)[0].wake <- coroMsg{panicked: r}
			}
		}()
		w.depth, w.stackFn = 0, nil
		to := w.concInt(w.callV(f, nil, nil))
		(*l)[to].wake <- coroMsg{}
	}()
	return len(*l) - 1
}

func (w *worker) transfer(from, to int) {
	w.needImpure()
	l := *w.coros()
	depth, stk := w.depth, w.stackFn
	l[to].wake <- coroMsg{}
	m := <-l[from].wake
	if m.kill {
		panic(pathEnd{"killed", ""})
	}
	w.depth, w.stackFn = depth, stk
	if m.panicked != nil {
		panic(m.panicked)
	}
}

// killCoros ends the threads that are left at the end of a path, or of a run.
func (w *worker) killCoros() {
	l, _ := w.nat["coros"].(*[]*coro)
	if l == nil {
		return
	}
	delete(w.nat, "coros")
	for _, c := range (*l)[1:] {
		select {
		case <-c.end:
		case c.wake <- coroMsg{kill: true}:
			<-c.end
		}
	}
}

func init() {
	vs := repoModule + "/zz_verif/vs."
	reg(vs+"spawn", func(w *worker, a []V) V { return vInt(w.spawn(a[0])) })
	reg(vs+"transfer", func(w *worker, a []V) V { w.transfer(w.concInt(a[0]), w.concInt(a[1])); return V{} })
	reg(vs+"reset", func(w *worker, a []V) V {
		w.needImpure()
		depth, stk := w.depth, w.stackFn
		w.killCoros()
		w.depth, w.stackFn = depth, stk
		return V{}
	})
}
