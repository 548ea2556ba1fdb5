package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// builder makes the simulated programs out of the current tree: it lays the
// instrumented files over the repository, the antlr runtime and the few places
// of the Go runtime whose nondeterminism or hidden synchronisation would spoil
// a run, and never writes in any of them.
type builder struct {
	verif string // /verif
	repo  string // /repo
	tmp   string
	env   []string
	t0    time.Time
	smu   sync.Mutex
	sites map[string][]site
}

func newBuilder(verif, repo, tmp string) *builder {
	env := []string{}
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOFLAGS", "GOWORK", "GO111MODULE", "CGO_CFLAGS", "CGO_CFLAGS_ALLOW", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "CGO_ENABLED", "GODEBUG", "GORACE", "CC":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOTOOLCHAIN=local", "CGO_ENABLED=1", "CGO_CFLAGS_ALLOW=.*", "CC=gcc")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return &builder{verif: verif, repo: repo, tmp: tmp, env: env, t0: time.Now()}
}

func (b *builder) run(dir string, name string, args ...string) ([]byte, error) {
	return b.runEnv(nil, dir, name, args...)
}

func (b *builder) runEnv(env []string, dir string, name string, args ...string) ([]byte, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(append([]string{}, b.env...), env...)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		return out.Bytes(), fmt.Errorf("%s %s: %v\n%s%s", name, strings.Join(args, " "), err, tailOf(out.String(), 3000), tailOf(errb.String(), 6000))
	}
	return out.Bytes(), nil
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type goPkg struct {
	Dir, ImportPath   string
	Name              string
	GoFiles, CgoFiles []string
	CFiles            []string
	Standard          bool
	Module            *struct{ Path, GoVersion string }
}

const modPrefix = "github.com/yaacov/tree-search-language/"

// moduleDir prepares a directory holding a harness and a go.mod that points
// at the repository's module and at the simulator.
func (b *builder) moduleDir(target, harness string) (string, error) {
	dir := filepath.Join(b.tmp, harness+"-"+target)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	src := filepath.Join(b.verif, "sim", harness)
	ents, err := os.ReadDir(src)
	if err != nil && !strings.HasPrefix(harness, "apps") {
		return "", err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			t, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return "", err
			}
			t = bytes.ReplaceAll(t, []byte("tree-search-language/vN/"), []byte("tree-search-language/"+target+"/"))
			if err := os.WriteFile(filepath.Join(dir, e.Name()), t, 0o644); err != nil {
				return "", err
			}
		}
	}
	// the module's own requirements, read from its current go.mod
	out, err := b.run(dir, "go", "mod", "edit", "-json", filepath.Join(b.repo, target, "go.mod"))
	if err != nil {
		return "", err
	}
	var gm struct {
		Require []struct{ Path, Version string }
		Go      string
	}
	if err := json.Unmarshal(out, &gm); err != nil {
		return "", err
	}
	var m strings.Builder
	fmt.Fprintf(&m, "module vsim.local/harness\n\ngo 1.24\n\nrequire (\n\t%s%s v%s.0.0\n\tvsim.local/simrt v0.0.0\n\tvsim.local/simapp v0.0.0\n", modPrefix, target, target[1:])
	for _, r := range gm.Require {
		fmt.Fprintf(&m, "\t%s %s\n", r.Path, r.Version)
	}
	fmt.Fprintf(&m, ")\n\nreplace %s%s => %s\n\nreplace vsim.local/simrt => %s\n\nreplace vsim.local/simapp => %s\n", modPrefix, target, filepath.Join(b.repo, target), filepath.Join(b.verif, "sim", "simrt"), filepath.Join(b.verif, "sim", "simapp"))
	for _, r := range gm.Require {
		if _, ok := appLibs[r.Path]; ok && harness != "apps-mongo" && strings.HasPrefix(harness, "apps") {
			cp, err := b.copyLib(r.Path, r.Version, filepath.Join(b.tmp, path.Base(r.Path)+"-"+harness+"-"+target))
			if err != nil {
				return "", err
			}
			fmt.Fprintf(&m, "\nreplace %s => %s\n", r.Path, cp)
		}
		if r.Path != "github.com/antlr/antlr4" {
			continue
		}
		// files of the module cache cannot be overlaid: use a copy
		cp, err := b.copyModule(r.Path, r.Version, "runtime/Go/antlr", filepath.Join(b.tmp, "antlr-"+harness+"-"+target))
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&m, "\nreplace %s => %s\n", r.Path, cp)
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(m.String()), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(b.repo, target, "go.sum"))
	if err != nil {
		sum, err = os.ReadFile(filepath.Join(b.verif, "sim", "gosum", target+".sum"))
		if err != nil {
			return "", err
		}
	}
	return dir, os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

// appLibs are the libraries of the command-line tools whose tasks, locks and
// timers are the simulator's; in some only functions are scheduling points.
var appLibs = map[string]struct {
	low  bool
	subs []string
}{
	"github.com/mattn/go-sqlite3":     {false, nil},
	"github.com/graphql-go/graphql":   {true, []string{"gqlerrors", "language/ast", "language/kinds", "language/lexer", "language/location", "language/parser", "language/printer", "language/source", "language/typeInfo", "language/visitor"}},
	"github.com/Masterminds/squirrel": {true, nil},
	"github.com/jinzhu/gorm":          {true, []string{"dialects/sqlite"}},
}

// copyLib copies a library out of the module cache, whose files cannot be
// overlaid. In gorm, errors are logged at once instead of by a goroutine that
// may or may not come to it.
func (b *builder) copyLib(path, version, dst string) (string, error) {
	for _, sub := range append([]string{""}, appLibs[path].subs...) {
		if _, err := b.copyModule(path, version, sub, dst); err != nil {
			return "", err
		}
	}
	if strings.HasSuffix(path, "/gorm") {
		f := filepath.Join(dst, "main.go")
		t, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		t = bytes.ReplaceAll(t, []byte("go s.print("), []byte("s.print("))
		if err := os.WriteFile(f, t, 0o644); err != nil {
			return "", err
		}
	}
	out, err := b.run(b.tmp, "go", "env", "GOMODCACHE")
	if err != nil {
		return "", err
	}
	t, err := os.ReadFile(filepath.Join(strings.TrimSpace(string(out)), escaped(path)+"@"+version, "go.mod"))
	if os.IsNotExist(err) {
		return dst, nil
	}
	if err != nil {
		return "", err
	}
	return dst, os.WriteFile(filepath.Join(dst, "go.mod"), t, 0o644)
}

// escaped is the name of a module in the module cache.
func escaped(p string) string {
	var o strings.Builder
	for _, r := range p {
		if r >= 'A' && r <= 'Z' {
			o.WriteByte('!')
			r += 'a' - 'A'
		}
		o.WriteRune(r)
	}
	return o.String()
}

// simSQL writes a copy of database/sql whose tasks, locks and timers are the
// simulator's.
func (b *builder) simSQL(in *instrumenter, dir string) error {
	out, err := b.run(b.tmp, "go", "env", "GOROOT")
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src", "database", "sql")
	dst := filepath.Join(dir, "dbsql")
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		t, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		s := string(t)
		// what a program outside the standard library cannot have: only
		// drivers that scan by themselves would need it
		s = strings.Replace(s, "\t\"database/sql/internal\"\n", "", 1)
		s = strings.Replace(s, "internal.ScanContextValue(internal.ScanContext(scanCtx)).(*Rows)", "any(nil).(*Rows)", 1)
		s = strings.Replace(s, "scanCtx := driver.ScanContext(internal.NewScanContext(rs))", "var scanCtx driver.ScanContext", 1)
		s = regexp.MustCompile(`(?m)^//go:linkname .*$`).ReplaceAllString(s, "")
		t, err = in.file(f, []byte(s), "database/sql/"+filepath.Base(f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(f)), append([]byte("//go:build go1.27\n\n"), t...), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (b *builder) copyModule(path, version, sub, dst string) (string, error) {
	out, err := b.run(b.tmp, "go", "env", "GOMODCACHE")
	if err != nil {
		return "", err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), escaped(path)+"@"+version, sub)
	ents, err := os.ReadDir(src)
	if err != nil {
		return "", err
	}
	if err := os.MkdirAll(filepath.Join(dst, sub), 0o755); err != nil {
		return "", err
	}
	for _, e := range ents {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") || !has([]string{".go", ".c", ".h"}, filepath.Ext(e.Name())) {
			continue
		}
		t, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dst, sub, e.Name()), t, 0o644); err != nil {
			return "", err
		}
	}
	return dst, os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+path+"\n\ngo 1.13\n"), 0o644)
}

// overlay instruments every package of the repository and of the antlr runtime
// the harness uses and returns the path of the overlay file.
func oldGo(v string) bool {
	var a, m int
	fmt.Sscanf(v, "%d.%d", &a, &m)
	return a < 1 || a == 1 && m < 18
}

// With apps it also instruments the libraries of the command-line tools, and
// has their programs run as tasks.
func (b *builder) overlay(dir, target string, level int, race, apps, server bool, pkgs ...string) (string, error) {
	out, err := b.run(dir, "go", append([]string{"list", "-deps", "-json=Dir,ImportPath,Name,GoFiles,CgoFiles,CFiles,Standard,Module"}, pkgs...)...)
	if err != nil {
		return "", err
	}
	ov := map[string]string{}
	in := &instrumenter{sites: []site{{"?", 0}}}
	dec := json.NewDecoder(bytes.NewReader(out))
	odir := filepath.Join(dir, fmt.Sprint("ov-", race))
	if err := os.MkdirAll(odir, 0o755); err != nil {
		return "", err
	}
	n := 0
	put := func(orig string, text []byte) error {
		n++
		p := filepath.Join(odir, fmt.Sprintf("%04d_%s", n, filepath.Base(orig)))
		ov[orig] = p
		return os.WriteFile(p, text, 0o644)
	}
	for dec.More() {
		var p goPkg
		if err := dec.Decode(&p); err != nil {
			return "", err
		}
		if p.Module == nil || p.Standard {
			continue
		}
		lib, isLib := appLibs[p.Module.Path]
		if !apps {
			isLib = false
		}
		hsql := apps && strings.HasPrefix(p.ImportPath, "vsim.local/simapp/hsql")
		if !strings.HasPrefix(p.Module.Path, modPrefix) && !strings.HasPrefix(p.Module.Path, "github.com/antlr/") && !isLib && !hsql {
			continue
		}
		var all []string
		for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
			all = append(all, filepath.Join(p.Dir, f))
		}
		in.generics = genericsOf(all)
		for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
			full := filepath.Join(p.Dir, f)
			disp := full
			if r, err := filepath.Rel(b.repo, full); err == nil && !strings.HasPrefix(r, "..") {
				disp = r
			} else {
				disp = p.ImportPath + "/" + f
			}
			antlr := strings.HasPrefix(p.Module.Path, "github.com/antlr/")
			ours := strings.HasPrefix(p.Module.Path, modPrefix)
			in.low = antlr || isLib && lib.low || generated(full) || ours && level == 1
			in.ctx = !antlr
			in.old = oldGo(p.Module.GoVersion)
			in.sql = ""
			if apps {
				in.sql = "vsim.local/harness/dbsql"
			}
			in.imports = ours && level > 1
			t, err := in.path(full, disp)
			if err != nil && ours && level > 0 {
				in.imports = true
				t, err = in.path(full, disp)
			}
			if err != nil {
				return "", err
			}
			if apps && p.Name == "main" {
				t = bytes.Replace(t, []byte("\nfunc main() {"), []byte("\nfunc programMain() {"), 1)
			}
			if err := put(full, t); err != nil {
				return "", err
			}
		}
		if apps && p.Name == "main" {
			also := ""
			if server {
				also = "\nimport _ \"vsim.local/simapp/simserve\"\n"
			}
			if err := put(filepath.Join(p.Dir, "zz_simapp.go"), []byte("package main\n\nimport \"vsim.local/simapp/simtask\"\n"+also+"\nfunc main() { simtask.Main(programMain) }\n")); err != nil {
				return "", err
			}
		}
		if len(p.CgoFiles) > 0 && strings.HasSuffix(p.ImportPath, "/pkg/tsl") && !apps {
			h6 := filepath.Join(b.verif, "sim", "h6")
			c, err := os.ReadFile(filepath.Join(h6, "zz_simrt.c"))
			if err != nil {
				return "", err
			}
			if err := put(filepath.Join(p.Dir, "zz_simrt.c"), c); err != nil {
				return "", err
			}
			g, err := os.ReadFile(filepath.Join(h6, "zz_simrt.go.txt"))
			if err != nil {
				return "", err
			}
			g = bytes.ReplaceAll(g, []byte("@SIMDIR@"), []byte(h6))
			san := "-fsanitize=thread --param tsan-instrument-func-entry-exit=0"
			if race {
				san = "-fsanitize=kernel-address --param asan-instrumentation-with-call-threshold=0 --param asan-stack=0 --param asan-globals=0"
			}
			g = bytes.ReplaceAll(g, []byte("@SAN@"), []byte(san))
			if race || syncsInC(p.Dir) {
				g = bytes.ReplaceAll(g, []byte("#cgo CFLAGS: "), []byte("#cgo CFLAGS: -DSIM_NO_HB "))
			}
			if err := put(filepath.Join(p.Dir, "zz_simrt.go"), g); err != nil {
				return "", err
			}
		}
	}
	if apps {
		in.imports = false
		in.low, in.ctx, in.old, in.sql = false, true, false, ""
		if err := b.simSQL(in, dir); err != nil {
			return "", err
		}
	}
	b.smu.Lock()
	if b.sites == nil {
		b.sites = map[string][]site{}
	}
	b.sites[target] = in.sites
	b.smu.Unlock()
	if err := b.stdOverlay(put, false, false); err != nil {
		return "", err
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(dir, fmt.Sprintf("overlay-%v.json", race))
	return of, os.WriteFile(of, j, 0o644)
}

// syncsInC says whether the C code of a package synchronises by itself: the
// simulator does not see it, so it must not judge what is ordered by what.
func syncsInC(dir string) bool {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.[chly]"))
	for _, f := range fs {
		t, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, w := range []string{"pthread_rwlock", "pthread_once", "pthread_cond", "pthread_spin", "sem_wait", "threads.h"} {
			if bytes.Contains(t, []byte(w)) {
				return true
			}
		}
	}
	return false
}

// generated says whether a file is the output of the ANTLR tool.
func generated(file string) bool {
	t, err := os.ReadFile(file)
	return err == nil && bytes.Contains(t[:min(len(t), 400)], []byte("Code generated from"))
}

// stdOverlay removes from the Go runtime what would make runs differ or hide
// races from the detector: random map seeds, the happens-before edges a race
// build adds around every cgo call, and those of sync.Pool.
//
// For a simulated program (app) it also adds the places where the simulator
// takes over standard output, the clock and the listening for connections.
func (b *builder) stdOverlay(put func(string, []byte) error, app, mongo bool) error {
	out, err := b.run(b.tmp, "go", "env", "GOROOT")
	if err != nil {
		return err
	}
	root := strings.TrimSpace(string(out))
	patch := func(file string, pairs ...string) error {
		p := filepath.Join(root, "src", file)
		t, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := string(t)
		for i := 0; i < len(pairs); i += 2 {
			if !strings.Contains(s, pairs[i]) {
				return fmt.Errorf("%s: the text to replace is not there: %q", p, pairs[i])
			}
			s = strings.ReplaceAll(s, pairs[i], pairs[i+1])
		}
		return put(p, []byte(s))
	}
	if err := patch("runtime/cgocall.go",
		"raceacquire(unsafe.Pointer(&racecgosync))", "_ = racecgosync"); err != nil {
		return err
	}
	sched := `
var simSelect uint64 = 1

// SimSelectSeed decides which cases the next selects prefer.
func SimSelectSeed(x uint64) { simSelect = x }

//go:nosplit
func simSelectn(n uint32) uint32 {
	simSelect = simSelect*6364136223846793005 + 1442695040888963407
	return uint32(uint64(uint32(simSelect>>32)) * uint64(n) >> 32)
}
`
	if mongo {
		sched += `
// SimSeed seeds the order of goroutines.
func SimSeed(x uint64) { simState = x*2 + 1 }

var simState uint64 = 1

//go:nosplit
func simRandn(n uint32) uint32 {
	simState = simState*6364136223846793005 + 1442695040888963407
	return uint32(uint64(uint32(simState>>32)) * uint64(n) >> 32)
}
`
	}
	if err := patch("runtime/rand.go",
		"func maps_rand() uint64 {", "func maps_rand() uint64 {\n\tif true {\n\t\treturn 0x5bd1e995\n\t}",
		"\nfunc rand() uint64 {", "\nfunc rand() uint64 {\n\tif true {\n\t\treturn 0x5bd1e995_9d2c5681\n\t}",
		"func bootstrapRand() uint64 {", "func bootstrapRand() uint64 {\n\tif true {\n\t\tsimBoot = simBoot*6364136223846793005 + 1442695040888963407\n\t\treturn simBoot\n\t}",
		"func mrandinit(", "var simBoot uint64\n"+sched+"\nfunc mrandinit("); err != nil {
		return err
	}
	if !mongo {
		if err := patch("runtime/select.go", "cheaprandn(uint32(norder + 1))", "simSelectn(uint32(norder + 1))"); err != nil {
			return err
		}
	}
	if app {
		if err := patch("syscall/syscall_unix.go",
			"func Write(fd int, p []byte) (n int, err error) {\n", "// SimWrite is the simulator's.\nvar SimWrite func(fd int, p []byte) (int, error, bool)\n\nfunc Write(fd int, p []byte) (n int, err error) {\n\tif SimWrite != nil {\n\t\tif n, err, ok := SimWrite(fd, p); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"); err != nil {
			return err
		}
		if err := patch("time/time.go",
			"func Now() Time {\n", "func Now() Time {\n\tif SimNow != nil {\n\t\tif ns, ok := SimNow(); ok {\n\t\t\treturn Unix(ns/1e9, ns%1e9)\n\t\t}\n\t}\n",
			"\nfunc Unix(sec int64, nsec int64) Time {", "\n// SimNow is the simulator's.\nvar SimNow func() (int64, bool)\n\nfunc Unix(sec int64, nsec int64) Time {"); err != nil {
			return err
		}
		if err := patch("net/http/server.go",
			"func (s *Server) ListenAndServe() error {\n", "func (s *Server) ListenAndServe() error {\n\tif SimServe != nil {\n\t\treturn SimServe(s)\n\t}\n",
			"func (s *Server) Serve(l net.Listener) error {\n", "func (s *Server) Serve(l net.Listener) error {\n\tif SimServe != nil {\n\t\treturn SimServe(s)\n\t}\n",
			"\n// ErrServerClosed ", "\n// SimServe is the simulator's.\nvar SimServe func(*Server) error\n\n// ErrServerClosed "); err != nil {
			return err
		}
	}
	if app {
		if err := patch("net/dial.go",
			"\nfunc Listen(network, address string) (Listener, error) {\n", `
// SimListen is the simulator's.
var SimListen bool

type simListener struct{ addr string }

func (simListener) Accept() (Conn, error) { return nil, ErrClosed }
func (simListener) Close() error          { return nil }
func (l simListener) Addr() Addr          { return &UnixAddr{Name: l.addr, Net: "sim"} }

func Listen(network, address string) (Listener, error) {
	if SimListen {
		return simListener{address}, nil
	}
`,
			"\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {", `
// SimDial is the simulator's.
var SimDial func(ctx context.Context, network, address string) (Conn, error)

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if SimDial != nil {
		return SimDial(ctx, network, address)
	}`); err != nil {
			return err
		}
	}
	if mongo {
		if err := b.mongoOverlay(patch); err != nil {
			return err
		}
	}
	return patch("sync/pool.go",
		"func (p *Pool) Put(x any) {", "func (p *Pool) Put(x any) {\n\tif race.Enabled {\n\t\treturn\n\t}",
		"func (p *Pool) Get() any {", "func (p *Pool) Get() any {\n\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}")
}

// mongoOverlay lets a seed decide the order of goroutines, lets a program run
// in a bubble with its own clock, and hands its connections to the simulator.
func (b *builder) mongoOverlay(patch func(string, ...string) error) error {
	for _, l := range [][]string{
		{"runtime/proc.go",
			"const randomizeScheduler = raceenabled", "const randomizeScheduler = true",
			"next && randn(2) == 0", "next && simRandn(2) == 0",
			"j := cheaprandn(i + 1)", "j := simRandn(i + 1)",
			"if pp == nil || atomic.Load(&pp.status) != _Prunning {", "if true { // a processor is given up, never taken",
			"const forcePreemptNS = 10 * 1000 * 1000", "const forcePreemptNS = 1 << 60"},
		{"runtime/select.go", "cheaprandn(uint32(norder + 1))", "simRandn(uint32(norder + 1))"},
		{"runtime/time.go", "t.rand = cheaprand()", "t.rand = simRandn(1 << 31)"},
		{"testing/synctest/synctest.go", "\nfunc Wait() {", "\nfunc Wait() { // SimRun is below\n", "\n// Sleep blocks until", "\n// SimRun runs a program in a bubble.\nfunc SimRun(f func()) { synctest.Run(f) }\n\n// Sleep blocks until"},
	} {
		if err := patch(l[0], l[1:]...); err != nil {
			return err
		}
	}
	return nil
}

// build compiles the harness for a target.
func (b *builder) build(target, harness string, race bool) (string, error) {
	dir, err := b.moduleDir(target, harness)
	if err != nil {
		return "", err
	}
	bin := filepath.Join(b.tmp, fmt.Sprintf("%s-%s-%v", harness, target, race))
	return bin, levels(func(level int) error {
		ov, err := b.overlay(dir, target, level, race, false, false, ".")
		if err != nil {
			return err
		}
		args := []string{"build", "-tags", "vsim", "-overlay", ov, "-o", bin}
		if race {
			args = append(args, "-race")
		}
		_, err = b.run(dir, "go", append(args, ".")...)
		return err
	})
}

// levels builds with the repository's own code fully instrumented, and only
// where that does not compile with less: a change the instrumenter cannot
// follow must not leave a check without an answer. What does not compile at
// all fails with the first error.
func levels(build func(level int) error) error {
	var first error
	from, _ := strconv.Atoi(os.Getenv("VSIM_LEVEL"))
	for level := from; level < 3; level++ {
		err := build(level)
		if err == nil {
			if first != nil {
				fmt.Fprintf(os.Stderr, "vsim: built with instrumentation level %d: %s\n", level, tailOf(first.Error(), 400))
			}
			return nil
		}
		if first == nil {
			first = err
		}
	}
	return first
}

func (b *builder) sitesOf(target string) []site {
	b.smu.Lock()
	defer b.smu.Unlock()
	return b.sites[target]
}

// buildApps compiles programs of the repository for the simulator.
func (b *builder) buildApps(target string, apps []string, server, race bool) (string, error) {
	kind := "apps"
	if server {
		kind = "apps-server"
	}
	mongo := has(apps, "tsl_mongo")
	if mongo {
		kind = "apps-mongo"
	}
	bin := filepath.Join(b.tmp, fmt.Sprintf("%s-%s-%v-bin", kind, target, race))
	if err := os.MkdirAll(bin, 0o755); err != nil {
		return "", err
	}
	dir, err := b.moduleDir(target, kind)
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "doc.go"), []byte("package harness\n"), 0o644); err != nil {
		return "", err
	}
	var pkgs []string
	ov := map[string]string{}
	hf := filepath.Join(dir, "zz_simapp.go.txt")
	if err := os.WriteFile(hf, []byte("package main\n\nimport _ \"vsim.local/simapp\"\n"), 0o644); err != nil {
		return "", err
	}
	for _, a := range apps {
		if a == "hsql" {
			pkgs = append(pkgs, "vsim.local/simapp/hsql")
			continue
		}
		pkgs = append(pkgs, modPrefix+target+"/cmd/"+a)
		if a == "tsl_mongo" {
			mf := filepath.Join(dir, "zz_simmongo.go.txt")
			if err := os.WriteFile(mf, []byte("package main\n\nimport \"vsim.local/simapp/simmongo\"\n\nfunc main() { simmongo.Main(programMain) }\n"), 0o644); err != nil {
				return "", err
			}
			ov[filepath.Join(b.repo, target, "cmd", a, "zz_simapp.go")] = mf
		} else if mongo {
			ov[filepath.Join(b.repo, target, "cmd", a, "zz_simapp.go")] = hf
		}
	}
	n := 0
	if mongo {
		fs, _ := filepath.Glob(filepath.Join(b.repo, target, "cmd", "tsl_mongo", "*.go"))
		for _, f := range fs {
			t, err := os.ReadFile(f)
			if err != nil {
				return "", err
			}
			if i := bytes.Index(t, []byte("\nfunc main() {")); i >= 0 && !strings.HasSuffix(f, "_test.go") {
				p := filepath.Join(dir, "zz_main.go.txt")
				if err := os.WriteFile(p, bytes.Replace(t, []byte("\nfunc main() {"), []byte("\nfunc programMain() {"), 1), 0o644); err != nil {
					return "", err
				}
				ov[f] = p
			}
		}
	}
	put := func(orig string, text []byte) error {
		n++
		p := filepath.Join(dir, fmt.Sprintf("std%04d_%s.txt", n, filepath.Base(orig)))
		ov[orig] = p
		return os.WriteFile(p, text, 0o644)
	}
	return bin, levels(func(level int) error {
		if !mongo {
			of, err := b.overlay(dir, target, level, race, true, server, pkgs...)
			if err != nil {
				return err
			}
			t, err := os.ReadFile(of)
			if err != nil {
				return err
			}
			var o struct{ Replace map[string]string }
			if err := json.Unmarshal(t, &o); err != nil {
				return err
			}
			for k, v := range o.Replace {
				ov[k] = v
			}
		}
		if err := b.stdOverlay(put, true, mongo); err != nil {
			return err
		}
		j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(dir, "overlay.json")
		if err := os.WriteFile(of, j, 0o644); err != nil {
			return err
		}
		args := []string{"build", "-tags", "vsim", "-overlay", of, "-o", bin + "/"}
		if race {
			args = append(args, "-race")
		}
		_, err := b.runEnv([]string{"CGO_CFLAGS=-O1 -g0"}, dir, "go", append(args, pkgs...)...)
		return err
	})
}
