package main

// Generated code as code under test: a program of /verif/harness/_gen, run with /repo's current generator, writes Go
// packages that are then compiled and encoded like any other package.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// genPkgs lists the generated packages, which are initialised before a path starts: they register things.
var genPkgs = map[string]bool{}

// initGenerated runs the initialisers of the generated packages, once per worker.
func (w *worker) initGenerated() {
	if len(genPkgs) == 0 {
		return
	}
	for _, p := range w.eng.prog.AllPackages() {
		if genPkgs[p.Pkg.Path()] && !w.inited[p] {
			w.runInit(p)
		}
	}
}

// generate adds the generated packages to the overlay. It gives a message if the code cannot be generated or does not
// compile, which violates the property of the check.
func generate(c *Check, ov map[string]string, scratch string) string {
	if len(c.Gen) == 0 {
		return ""
	}
	for _, g := range c.Gen {
		o2 := map[string]string{}
		for k, v := range ov {
			o2[k] = v
		}
		dir := filepath.Join(verifDir, "harness", "_gen", g)
		ents, err := os.ReadDir(dir)
		if err != nil {
			fatalf("%v", err)
		}
		for _, e := range ents {
			o2[filepath.Join(repoDir, "zz_verif", "zz_gen", g, e.Name())] = filepath.Join(dir, e.Name())
		}
		bin := filepath.Join(scratch, "gen-"+g)
		if b, err := goCmd("build", "-overlay", writeOverlay(o2, scratch), "-o", bin, repoModule+"/zz_verif/zz_gen/"+g); err != nil {
			fatalf("building the generator: %v\n%s", err, b)
		}
		out := filepath.Join(scratch, "gen-out-"+g)
		if b, err := exec.Command(bin, out).CombinedOutput(); err != nil {
			return fmt.Sprintf("the code cannot be generated: %v\n%s", err, b)
		}
		var pkgs []string
		ents, _ = os.ReadDir(out)
		for _, p := range ents {
			fs, _ := os.ReadDir(filepath.Join(out, p.Name()))
			for _, f := range fs {
				if strings.HasSuffix(f.Name(), ".go") {
					ov[filepath.Join(repoDir, "zz_verif", p.Name(), f.Name())] = filepath.Join(out, p.Name(), f.Name())
				}
			}
			pkgs = append(pkgs, repoModule+"/zz_verif/"+p.Name())
			genPkgs[repoModule+"/zz_verif/"+p.Name()] = true
		}
		if b, err := goCmd(append([]string{"build", "-overlay", writeOverlay(ov, scratch)}, pkgs...)...); err != nil {
			return fmt.Sprintf("the generated code does not compile: %v\n%s", err, b)
		}
		logf("generated %d packages with %s", len(pkgs), g)
	}
	return ""
}
