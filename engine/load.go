package main

// Loading /repo (current working tree) plus the harness overlay, and building go/ssa.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir   = envOr("XTV_REPO", "/repo")
	verifDir  = envOr("XTV_VERIF", "/verif")
	solverBin = envOr("XTV_SOLVER", "z3-new")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// overlayFiles maps paths inside /repo to files in /verif or in the scratch directory.
func overlayFiles(scratch string, pkgs []string, inpkg []string) map[string]string {
	ov := map[string]string{}
	addDir := func(from, to string) {
		ents, err := os.ReadDir(from)
		if err != nil {
			fatalf("harness dir: %v", err)
		}
		for _, e := range ents {
			if !e.IsDir() && strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(to, e.Name())] = filepath.Join(from, e.Name())
			}
		}
	}
	addDir(filepath.Join(verifDir, "harness", "nd"), filepath.Join(repoDir, "zz_verif", "nd"))
	for _, p := range pkgs {
		addDir(filepath.Join(verifDir, "harness", p), filepath.Join(repoDir, "zz_verif", p))
	}
	for _, p := range inpkg {
		addDir(filepath.Join(verifDir, "harness", "_inpkg", p), filepath.Join(repoDir, p))
	}
	// generated .pb.go files that are missing or older than their .proto
	gen := genProtos(scratch)
	for k, v := range gen {
		ov[k] = v
	}
	return ov
}

var protoDirs = []string{"proto/recordtoproto", "proto/service", "proto/wirepath", "proto/wirepath/testproto"}

func genProtos(scratch string) map[string]string {
	out := map[string]string{}
	var need []string
	filepath.Walk(filepath.Join(repoDir, "proto"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".proto") {
			return nil
		}
		pb := strings.TrimSuffix(p, ".proto") + ".pb.go"
		st, err := os.Stat(pb)
		if err != nil || st.ModTime().Before(fi.ModTime()) {
			need = append(need, p)
		}
		return nil
	})
	if len(need) == 0 {
		return out
	}
	plug := filepath.Join(scratch, "protoc-gen-go")
	if b, err := goCmd("build", "-o", plug, "github.com/golang/protobuf/protoc-gen-go"); err != nil {
		logf("protoc-gen-go: %v\n%s", err, b)
		return out
	}
	root := filepath.Join(scratch, "protoroot")
	os.MkdirAll(filepath.Join(root, "github.com/google"), 0o755)
	os.Symlink(repoDir, filepath.Join(root, repoModule))
	gen := filepath.Join(scratch, "protogen")
	os.MkdirAll(gen, 0o755)
	for _, p := range need {
		rel, _ := filepath.Rel(repoDir, p)
		arg := "plugins=grpc,paths=source_relative,M" + repoModule + "/" + rel + "=" + repoModule + "/" + filepath.Dir(rel) + ":" + gen
		c := exec.Command("protoc", "-I"+root, "--plugin=protoc-gen-go="+plug, "--go_out="+arg, repoModule+"/"+rel)
		if b, err := c.CombinedOutput(); err != nil {
			logf("protoc %s: %v %s", rel, err, b)
			continue
		}
		g := filepath.Join(gen, repoModule, strings.TrimSuffix(rel, ".proto")+".pb.go")
		out[filepath.Join(repoDir, strings.TrimSuffix(rel, ".proto")+".pb.go")] = g
	}
	return out
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GO111MODULE", "PWD":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0")
}

func goCmd(args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Dir = repoDir
	c.Env = goEnv()
	return c.CombinedOutput()
}

func loadProgram(ov map[string]string, patterns []string, tags string) (*ssa.Program, []*packages.Package) {
	t0 := time.Now()
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			fatalf("overlay: %v", err)
		}
		overlay[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: overlay}
	// pure Go variants of assembly code in the standard library
	all := "math_big_pure_go,purego"
	if tags != "" {
		all += "," + tags
	}
	{
		cfg.BuildFlags = []string{"-tags=" + all}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatalf("loading packages: %v", err)
	}
	if n := packages.PrintErrors(pkgs); n > 0 {
		fatalf("%d errors loading the code under test (does /repo build?)", n)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	logf("loaded %d packages in %.1fs", len(prog.AllPackages()), time.Since(t0).Seconds())
	return prog, pkgs
}

func writeOverlay(ov map[string]string, scratch string) string {
	p := filepath.Join(scratch, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatalf("%v", err)
	}
	return p
}

var _ = fmt.Sprint
