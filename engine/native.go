package main

// The natively compiled harnesses: counterexample replay, translation validation, concolic fallback.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type natReq struct {
	H string         `json:"h"`
	P map[string]int `json:"p"`
	I []uint64       `json:"i"`
	T int            `json:"t"` // timeout ms
}

type natRes struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Labels []string `json:"labels"`
}

type Native struct {
	bin string
	cmd *exec.Cmd
	in  *json.Encoder
	inF *os.File
	out *bufio.Reader
	dir string
}

func nativeMain(hs []*Harness) string {
	pk := map[string]bool{}
	for _, h := range hs {
		pk[h.Pkg] = true
	}
	var ps []string
	for p := range pk {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"runtime/debug\"\n\t\"time\"\n\n\t\"" + repoModule + "/zz_verif/nd\"\n")
	for _, p := range ps {
		fmt.Fprintf(&sb, "\t%s %q\n", pkgAlias(p), repoModule+"/zz_verif/"+p)
	}
	sb.WriteString(")\n\nvar harness = map[string]func(){\n")
	seen := map[string]bool{}
	for _, h := range hs {
		if !seen[h.Name()] {
			seen[h.Name()] = true
			fmt.Fprintf(&sb, "\t%q: %s.%s,\n", h.Name(), pkgAlias(h.Pkg), h.Func)
		}
	}
	sb.WriteString("}\n" + nativeRest)
	return sb.String()
}

func pkgAlias(p string) string { return "h_" + strings.NewReplacer("/", "_", "-", "_").Replace(p) }

const nativeRest = `
type req struct {
	H string
	P map[string]int
	I []uint64
	T int
}

type res struct {
	Status string   ` + "`json:\"status\"`" + `
	Msg    string   ` + "`json:\"msg\"`" + `
	Obs    []string ` + "`json:\"obs\"`" + `
	Labels []string ` + "`json:\"labels\"`" + `
}

func one(q *req) (r res) {
	nd.C = &nd.Ctx{In: q.I, Params: q.P}
	defer func() {
		r.Obs = nd.C.Obs
		r.Labels = nd.C.Labels
		if x := recover(); x != nil {
			if s, ok := x.(nd.Stop); ok {
				r.Status, r.Msg = s.Status, s.Msg
				return
			}
			r.Status, r.Msg = "panic", fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	harness[q.H]()
	r.Status = "ok"
	return
}

func main() {
	debug.SetMaxStack(256 << 20)
	out := os.NewFile(3, "results")
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var q req
		if err := dec.Decode(&q); err != nil {
			return
		}
		ch := make(chan res, 1)
		go func() { ch <- one(&q) }()
		select {
		case r := <-ch:
			enc.Encode(r)
			w.Flush()
		case <-time.After(time.Duration(q.T) * time.Millisecond):
			enc.Encode(res{Status: "hang", Msg: "no result within the time limit"})
			w.Flush()
			os.Exit(0)
		}
	}
}
`

func buildNative(hs []*Harness, ov map[string]string, scratch string, tags string) (*Native, error) {
	main := filepath.Join(scratch, "zz_main.go")
	if err := os.WriteFile(main, []byte(nativeMain(hs)), 0o644); err != nil {
		return nil, err
	}
	o2 := map[string]string{filepath.Join(repoDir, "zz_verif", "zz_main", "main.go"): main}
	for k, v := range ov {
		o2[k] = v
	}
	ovf := writeOverlay(o2, scratch)
	bin := filepath.Join(scratch, "native")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if tags != "" {
		args = append(args, "-tags="+tags)
	}
	args = append(args, repoModule+"/zz_verif/zz_main")
	t0 := time.Now()
	if b, err := goCmd(args...); err != nil {
		return nil, fmt.Errorf("native build: %v\n%s", err, b)
	}
	logf("native harness built in %.1fs", time.Since(t0).Seconds())
	n := &Native{bin: bin, dir: scratch}
	return n, nil
}

func (n *Native) start() error {
	c := exec.Command(n.bin)
	wd := filepath.Join(n.dir, "cwd")
	os.MkdirAll(wd, 0o755)
	c.Dir = wd
	c.Env = []string{"TZ=UTC", "HOME=" + wd, "PATH=/nonexistent", "TMPDIR=" + wd, "GOMEMLIMIT=3GiB"}
	ir, iw, err := os.Pipe()
	if err != nil {
		return err
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return err
	}
	c.Stdin = ir
	c.ExtraFiles = []*os.File{ow}
	c.Stdout, c.Stderr = nil, nil
	if verbose {
		c.Stderr = os.Stderr
	}
	if err := c.Start(); err != nil {
		return err
	}
	ir.Close()
	ow.Close()
	n.cmd, n.inF, n.in, n.out = c, iw, json.NewEncoder(iw), bufio.NewReaderSize(or, 1<<20)
	return nil
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.inF.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) runOne(h *Harness, params map[string]int, in []uint64, timeout time.Duration) natRes {
	if h.Fresh {
		defer n.stop()
	}
	return n.run(h.Name(), params, in, timeout)
}

func (n *Native) run(h string, params map[string]int, in []uint64, timeout time.Duration) natRes {
	for try := 0; try < 2; try++ {
		if n.cmd == nil {
			if err := n.start(); err != nil {
				fatalf("native: %v", err)
			}
		}
		if in == nil {
			in = []uint64{}
		}
		if err := n.in.Encode(natReq{h, params, in, int(timeout / time.Millisecond)}); err != nil {
			n.stop()
			continue
		}
		l, err := n.out.ReadBytes('\n')
		if err != nil {
			n.stop()
			// fatal error of the process (e.g. stack overflow, concurrent map writes): not recoverable
			return natRes{Status: "panic", Msg: "the process died (fatal error)"}
		}
		var r natRes
		if err := json.Unmarshal(l, &r); err != nil {
			n.stop()
			continue
		}
		if r.Status == "hang" {
			n.stop()
		}
		return r
	}
	return natRes{Status: "error"}
}
