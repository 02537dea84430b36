package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ing-bank/zkrp"

var repoDir = envOr("VERIF_REPO", "/repo")
var verifDir = envOr("VERIF_DIR", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// overlayFor maps the harness file and the runtime package into the module.
func overlayFor(in *Instance) (map[string]string, error) {
	ov := map[string]string{}
	for _, f := range append([]string{in.File}, in.Extra...) {
		src := filepath.Join(verifDir, "harness", in.Pkg, f+".go")
		if _, err := os.Stat(src); err != nil {
			return nil, err
		}
		ov[filepath.Join(repoDir, in.Pkg, "zz_verif_"+f+".go")] = src
	}
	ov[filepath.Join(repoDir, "verifrt", "verifrt.go")] = filepath.Join(verifDir, "harness", "verifrt", "verifrt.go")
	return ov, nil
}

// loadPackages type-checks the package with the harness. Harness functions that
// do not fit the code (a function they look into has gone or has changed its
// parameters) are left out; the others still run.
func loadPackages(in *Instance) ([]*packages.Package, map[string][]byte, error) {
	ov, err := overlayFor(in)
	if err != nil {
		return nil, nil, err
	}
	content := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		content[k] = b
	}
	first := ""
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: content, Env: os.Environ()}
		pkgs, err := packages.Load(cfg, modPath+"/"+in.Pkg)
		if err != nil {
			return nil, nil, err
		}
		var errs []string
		var all []packages.Error
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if strings.HasPrefix(p.PkgPath, modPath) {
				for _, e := range p.Errors {
					errs = append(errs, e.Error())
					all = append(all, e)
				}
			}
		})
		if len(errs) == 0 {
			if p := pkgs[0].Types; first != "" && p != nil && p.Scope().Lookup(in.Func) == nil {
				return nil, nil, fmt.Errorf("the harness does not fit the code: %s", first)
			}
			return pkgs, content, nil
		}
		if first == "" {
			first = strings.Join(errs, "; ")
		}
		if round == 8 || !prune(content, all) {
			return nil, nil, fmt.Errorf("load: %s", first)
		}
		dbg("harness pruned: %s", strings.Join(errs, "; "))
	}
}

// prune blanks the declarations of harness files that have errors in them.
func prune(content map[string][]byte, errs []packages.Error) bool {
	done := false
	for _, e := range errs {
		parts := strings.Split(e.Pos, ":")
		if len(parts) < 2 || e.Kind != packages.TypeError {
			return false
		}
		name := parts[0]
		src, ok := content[name]
		line, err := strconv.Atoi(parts[1])
		if !ok || err != nil || !strings.HasPrefix(filepath.Base(name), "zz_verif_") {
			continue // follows from an error in the harness, or stays
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			return false
		}
		out := append([]byte(nil), src...)
		blank := func(n ast.Node) bool {
			a, b := fs.Position(n.Pos()), fs.Position(n.End())
			if line < a.Line || line > b.Line {
				return false
			}
			for i := a.Offset; i < b.Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
			done = true
			return true
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || len(g.Specs) == 1 && !g.Lparen.IsValid() {
				blank(d)
				continue
			}
			for _, s := range g.Specs {
				blank(s)
			}
		}
		content[name] = out
	}
	return done
}

func loadProgram(in *Instance) (*ssa.Program, *ssa.Package, error) {
	pkgs, _, err := loadPackages(in)
	if err != nil {
		return nil, nil, err
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, sp[0], nil
}

func runInstance(in *Instance) *Result {
	t0 := time.Now()
	prog, pkg, err := loadProgram(in)
	if err != nil {
		return &Result{Errors: []string{err.Error()}}
	}
	dbg("loaded in %v", time.Since(t0))
	fn := pkg.Func(in.Func)
	if fn == nil {
		return &Result{Errors: []string{"no harness function " + in.Func}}
	}
	cfg := in.Config
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 4000
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200_000_000
	}
	if in.QueryS > 0 {
		queryTimeout = time.Duration(in.QueryS) * time.Second
	}
	it := &Interp{prog: prog, globals: map[*ssa.Global]*value{}, cfg: &cfg, maxSteps: cfg.MaxSteps,
		pcSet: map[*Term]bool{}, encoded: map[string]bool{}, assumed: map[string]bool{}, callCnt: map[string]int{},
		abortWhy: map[string]int{}, intrCache: map[*ssa.Function]intrinsicFn{}, hashTerms: map[*Term]bool{}}
	// package initialisation, concretely
	ierr := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case engineErr:
					ierr = "initialisation: " + e.msg + " at " + it.where() + "\n" + it.stack()
				case targetPanic:
					ierr = "initialisation panics: " + e.msg + " " + e.where + "\n" + it.stack()
				default:
					dbg("%s", it.stack())
					panic(r)
				}
			}
		}()
		it.inInit = true
		it.res = &Result{}
		it.callFn(pkg.Func("init"), nil, nil, nil)
		it.inInit = false
	}()
	if ierr != "" {
		return &Result{Errors: []string{ierr}}
	}
	it.log = nil
	it.intrCache = map[*ssa.Function]intrinsicFn{}
	res := explore(it, fn, t0.Add(time.Duration(in.timeout())*time.Second))
	dbg("merge aborts: %v", it.abortWhy)
	return res
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check PROPERTY [thorough] | run NAME")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run": // one harness instance, given by name or as JSON
		in := findInstance(os.Args[2])
		if in == nil {
			in = &Instance{}
			if err := json.Unmarshal([]byte(os.Args[2]), in); err != nil {
				fmt.Fprintln(os.Stderr, "no such instance")
				os.Exit(2)
			}
		}
		res := runInstance(in)
		b, _ := json.MarshalIndent(res, "", " ")
		os.Stdout.Write(b)
		fmt.Println()
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		var rec struct{ Harness string }
		if err == nil {
			err = json.Unmarshal(b, &rec)
		}
		in := findInstance(rec.Harness)
		if err != nil || in == nil {
			fmt.Fprintln(os.Stderr, "cannot read the replay file", err)
			os.Exit(2)
		}
		ok, out := runReplay(in, os.Args[2])
		fmt.Println(out)
		if ok {
			os.Exit(1)
		}
	case "check":
		os.Exit(checkProperty(os.Args[2], len(os.Args) > 3 && os.Args[3] == "thorough"))
	case "list":
		for _, in := range registry {
			fmt.Println(in.Name, in.Props, in.Pkg, in.Func)
		}
	default:
		os.Exit(2)
	}
}
