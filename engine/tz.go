package main

// Time zone data: read from the host, parsed by the real time package.

import "os"

func init() {
	reg("syscall.Getenv", func(w *worker, a []V) V { return tup(V{}, vBool(false)) })
	reg("time.runtimeNow", func(w *worker, a []V) V { return tup(V{n: 1600000000}, V{}, V{}) })
	reg("time.loadTzinfo", func(w *worker, a []V) V {
		name, ok := concreteStr(a[0])
		src, ok2 := concreteStr(a[1])
		if !ok || !ok2 {
			w.unsupported("time zone with a symbolic name")
		}
		b, err := os.ReadFile(src + "/" + name)
		if err != nil {
			return tup(V{}, w.mkError(vStr("no such time zone")))
		}
		s := make([]V, len(b))
		for i, c := range b {
			s[i] = V{n: uint64(c)}
		}
		return tup(V{p: s}, V{})
	})
}
