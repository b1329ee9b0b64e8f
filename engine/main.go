package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mlnoga/nightlight"

type Harness struct {
	Name    string // function name
	Prop    string
	Pkg     string // import path
	File    string
	Doc     string
	Params  [][]kv // alternatives, each a parameter assignment
	Opt     Options
	Timeout int
	Only    string
	NoObs   bool
	Race    bool
	FS      bool
	Reach   []string
	Runs    int
	Steps   int
	fn      *ssa.Function
}
type kv struct {
	k string
	v int
}

type Loaded struct {
	prog      *ssa.Program
	harnesses []*Harness
	dropped   []string
	modfile   string
	overlay   map[string]string // target path -> source path
	loadTime  time.Duration
}

type config struct {
	repo, verif, tier string
	prop              string // of the harnesses replayed
}

// harnessFiles: /verif/harness/<dir>/zz_*.go overlays /repo/<dir>/zz_*.go
func harnessFiles(c *config) map[string]string {
	m := map[string]string{}
	root := filepath.Join(c.verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			m[filepath.Join(c.repo, rel)] = p
		}
		return nil
	})
	return m
}

func goEnv() []string {
	e := os.Environ()
	set := map[string]string{"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off", "GOTOOLCHAIN": "local", "GOSUMDB": "off", "CGO_ENABLED": "0"}
	if _, err := os.Stat("/opt/veriftools/go1.27.3/bin/go"); err == nil {
		set["GOROOT"] = "/opt/veriftools/go1.27.3"
		set["PATH"] = "/opt/veriftools/go1.27.3/bin:" + os.Getenv("PATH")
	}
	for k, v := range set {
		e = append(e, k+"="+v)
	}
	return e
}

func parseHarnessDoc(h *Harness, doc string, tier string) error {
	type pl struct {
		k  string
		vs []int
	}
	var bases [][]pl // one per harness line
	var thor []pl
	haveT := false
	for _, l := range strings.Split(doc, "\n") {
		l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
		if !strings.HasPrefix(l, "verif:") {
			continue
		}
		f := strings.Fields(l)
		switch f[0] {
		case "verif:harness":
			h.Prop = f[1]
			var base []pl
			for _, x := range f[2:] {
				kvs := strings.SplitN(x, "=", 2)
				if len(kvs) != 2 {
					return fmt.Errorf("bad param %q", x)
				}
				base = append(base, pl{kvs[0], expand(kvs[1])})
			}
			bases = append(bases, base)
		case "verif:thorough":
			haveT = true
			for _, x := range f[1:] {
				kvs := strings.SplitN(x, "=", 2)
				thor = append(thor, pl{kvs[0], expand(kvs[1])})
			}
		case "verif:reach":
			h.Reach = append(h.Reach, f[1:]...)
		case "verif:opt":
			for _, x := range f[1:] {
				k, v, _ := strings.Cut(x, "=")
				n, _ := strconv.Atoi(v)
				switch k {
				case "nomerge":
					h.Opt.NoMerge = true
				case "mergeloops":
					h.Opt.MergeLoops = true
				case "tab":
					h.Opt.Tab = n
				case "ac":
					h.Opt.UF, h.Opt.AC = true, true
				case "uf":
					h.Opt.UF = true
				case "fs":
					h.FS = true
				case "nozerosign":
					h.Opt.NoZeroSign = true
				case "sched":
					h.Opt.Sched = n
				case "race":
					h.Opt.Race = true
					h.Race = true
				case "qtimeout":
					h.Opt.QTimeout = n
				case "timeout":
					h.Timeout = n
				case "only":
					h.Only = v
				case "noobs":
					h.NoObs = true
				case "runs":
					h.Runs = n
				case "steps":
					h.Steps = n
				case "deadlockok":
					h.Opt.DeadlockOK = true
				default:
					return fmt.Errorf("unknown option %q", x)
				}
			}
		}
	}
	if haveT && tier == "thorough" {
		base := append([]pl(nil), bases[0]...)
		for _, t := range thor {
			done := false
			for i := range base {
				if base[i].k == t.k {
					base[i] = t
					done = true
				}
			}
			if !done {
				base = append(base, t)
			}
		}
		bases = [][]pl{base}
	}
	var all [][]kv
	seen := map[string]bool{}
	for _, base := range bases {
		alts := [][]kv{nil}
		for _, p := range base {
			var nx [][]kv
			for _, a := range alts {
				for _, v := range p.vs {
					nx = append(nx, append(append([]kv(nil), a...), kv{p.k, v}))
				}
			}
			alts = nx
		}
		for _, a := range alts {
			if k := fmt.Sprint(a); !seen[k] {
				seen[k] = true
				all = append(all, a)
			}
		}
	}
	h.Params = all
	return nil
}

func expand(s string) []int {
	var r []int
	for _, p := range strings.Split(s, ",") {
		if a, b, ok := strings.Cut(p, ".."); ok {
			x, _ := strconv.Atoi(a)
			y, _ := strconv.Atoi(b)
			for ; x <= y; x++ {
				r = append(r, x)
			}
			continue
		}
		x, _ := strconv.Atoi(p)
		r = append(r, x)
	}
	return r
}

// modFile makes a copy of the module file in which the random number generator is
// replaced by one whose numbers are harness inputs
func modFile(c *config) (string, error) {
	d, err := os.MkdirTemp("", "gosymmod")
	if err != nil {
		return "", err
	}
	b, err := os.ReadFile(filepath.Join(c.repo, "go.mod"))
	if err != nil {
		return "", err
	}
	v, _ := filepath.Abs(c.verif)
	b = append(b, []byte("\nreplace github.com/valyala/fastrand => "+filepath.Join(v, "harness_mods/fastrand")+"\n")...)
	if err := os.WriteFile(filepath.Join(d, "go.mod"), b, 0o644); err != nil {
		return "", err
	}
	if b, err = os.ReadFile(filepath.Join(c.repo, "go.sum")); err == nil {
		err = os.WriteFile(filepath.Join(d, "go.sum"), b, 0o644)
	}
	return filepath.Join(d, "go.mod"), err
}

// load builds SSA for the packages with harnesses of the property (or name)
func load(c *config, want func(h *Harness) bool) (*Loaded, error) {
	t0 := time.Now()
	files := harnessFiles(c)
	drop := map[string]bool{}
	L := &Loaded{}
	mod, err := modFile(c)
	if err != nil {
		return nil, err
	}
	L.modfile = mod
	for attempt := 0; attempt < 6; attempt++ {
		ov := map[string][]byte{}
		L.overlay = map[string]string{}
		dirs := map[string]bool{}
		for t, src := range files {
			if drop[t] {
				continue
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			ov[t] = b
			L.overlay[t] = src
			// textual prefilter of packages
			d, _ := filepath.Rel(c.repo, filepath.Dir(t))
			for _, name := range harnessNames(b) {
				if want(&Harness{Name: name[0], Prop: name[1]}) {
					dirs["./"+d] = true
				}
			}
		}
		if len(dirs) == 0 {
			return L, nil
		}
		var pats []string
		for d := range dirs {
			pats = append(pats, d)
		}
		sort.Strings(pats)
		cfg := &packages.Config{
			Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
			Dir:        c.repo,
			Overlay:    ov,
			Env:        goEnv(),
			BuildFlags: []string{"-modfile=" + mod},
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := false
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if _, ok := files[f]; ok && filepath.Base(filepath.Dir(f)) != "zzverif" {
					if !drop[f] {
						drop[f] = true
						bad = true
						L.dropped = append(L.dropped, filepath.Base(f)+": "+e.Msg)
					}
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if bad {
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(other, "; "))
		}
		prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		L.prog = prog
		for i, p := range pkgs {
			for _, f := range p.Syntax {
				fn := prog.Fset.Position(f.Pos()).Filename
				if _, ok := L.overlay[fn]; !ok {
					continue
				}
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "ZZ_") {
						continue
					}
					var doc []string
					for _, cm := range fd.Doc.List {
						doc = append(doc, cm.Text)
					}
					h := &Harness{Name: fd.Name.Name, Pkg: p.PkgPath, File: fn, Doc: strings.Join(doc, "\n"), Opt: Options{Sched: -1, MaxViol: 4}}
					if err := parseHarnessDoc(h, h.Doc, c.tier); err != nil {
						return nil, fmt.Errorf("%s: %v", h.Name, err)
					}
					if h.Prop == "" || !want(h) || (h.Only != "" && h.Only != c.tier) {
						continue
					}
					h.fn = spkgs[i].Func(h.Name)
					L.harnesses = append(L.harnesses, h)
				}
			}
		}
		sort.Slice(L.harnesses, func(i, j int) bool { return L.harnesses[i].Name < L.harnesses[j].Name })
		L.loadTime = time.Since(t0)
		return L, nil
	}
	return nil, fmt.Errorf("harness files keep failing: %v", L.dropped)
}

func harnessNames(b []byte) [][2]string {
	var r [][2]string
	prop := ""
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//verif:harness ") {
			prop = strings.Fields(t)[1]
		}
		if strings.HasPrefix(l, "func ZZ_") {
			n := l[5:]
			if i := strings.Index(n, "("); i > 0 {
				n = n[:i]
			}
			if prop != "" {
				r = append(r, [2]string{n, prop})
			}
			prop = ""
		}
	}
	return r
}

type Instance struct {
	h                     *Harness
	params                map[string]int
	label                 string
	ex                    *Exec
	wall                  time.Duration
	started               bool
	validated, mismatched int
	confirmed             []*Violation
	unconfirmed           []*Violation
	notes                 []string
	d                     *digest
}

func (in *Instance) run(L *Loaded, deadline time.Time) {
	t0 := time.Now()
	in.started = true
	ex := NewExec(L.prog, modPath, in.h.Opt, in.params)
	in.ex = ex
	d := time.Duration(in.h.Timeout) * time.Second
	if d == 0 {
		d = 100 * time.Second
	}
	ex.Deadline = t0.Add(d)
	if deadline.Before(ex.Deadline) {
		ex.Deadline = deadline
	}
	if in.h.Steps > 0 {
		ex.MaxSteps = in.h.Steps
	}
	defer func() {
		ex.sol.Close()
		in.wall = time.Since(t0)
		if r := recover(); r != nil {
			ex.Unsupported[fmt.Sprintf("engine panic: %v", r)]++
			if os.Getenv("GOSYM_DEBUG") != "" {
				panic(r)
			}
		}
	}()
	ex.trace = os.Getenv("GOSYM_TRACE") != ""
	ex.initPackage(in.h.fn.Pkg, true)
	ex.nextState++
	st := &State{ex: ex, id: ex.nextState, over: map[int]*Obj{}, names: map[string]int{}}
	st.threads = []*Thread{{id: 0}}
	ex.pushFrame(st, in.h.fn, nil, nil, nil)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(endPath); ok {
					ex.finish(st, e.why)
					return
				}
				panic(r)
			}
		}()
		ex.run(st, nil)
	}()
}

type replayDoc struct {
	Harness string            `json:"harness"`
	Pkg     string            `json:"pkg"`
	Params  map[string]int    `json:"params"`
	Inputs  map[string]string `json:"inputs"`
	Gates   []string          `json:"gates,omitempty"`
	Prop    string            `json:"property,omitempty"`
	Kind    string            `json:"kind,omitempty"`
	Msg     string            `json:"msg,omitempty"`
	Where   string            `json:"where,omitempty"`
	Native  string            `json:"native,omitempty"`
	Text    map[string]string `json:"readable,omitempty"`
}

func mkReplay(in *Instance, inputs []Input, m *Model, gates []string) *replayDoc {
	r := &replayDoc{Harness: in.h.Name, Pkg: in.h.Pkg, Params: in.params, Inputs: map[string]string{}, Gates: gates, Text: map[string]string{}}
	for _, i := range inputs {
		v := m.Get(i.T)
		r.Inputs[i.Name] = strconv.FormatUint(v, 10)
		switch i.Kind {
		case "f32":
			r.Text[i.Name] = fmt.Sprint(math.Float32frombits(uint32(v)))
		case "f64":
			r.Text[i.Name] = fmt.Sprint(math.Float64frombits(v))
		case "int":
			r.Text[i.Name] = fmt.Sprint(signExt(v, int(i.T.sort.W)))
		}
	}
	return r
}

// obsString mirrors zzverif.Observe
func obsString(m *Model, o Obs) (string, bool) {
	var sb strings.Builder
	sb.WriteString(o.Name + "=")
	var leaf func(v Value) bool
	leaf = func(v Value) bool {
		switch x := v.(type) {
		case *Term:
			b := m.Get(x)
			switch x.sort.K {
			case KF32:
				f := math.Float32frombits(uint32(b))
				if f != f {
					sb.WriteString("nan ")
					return true
				}
			case KF64:
				f := math.Float64frombits(b)
				if f != f {
					sb.WriteString("nan ")
					return true
				}
			}
			fmt.Fprintf(&sb, "%x ", b)
			return true
		case *Str:
			if x.opaque {
				return false
			}
			if x.b == nil {
				fmt.Fprintf(&sb, "%q ", x.s)
				return true
			}
			bs := make([]byte, len(x.b))
			for i, t := range x.b {
				bs[i] = byte(m.Get(t))
			}
			fmt.Fprintf(&sb, "%q ", string(bs))
			return true
		case Agg:
			for _, y := range x {
				if !leaf(y) {
					return false
				}
			}
			return true
		}
		return false
	}
	ok := leaf(o.V)
	return sb.String(), ok
}

type replayer struct {
	bin, raceBin string
	err          error
	raceErr      error
	dir          string
	once, rOnce  sync.Once
	L            *Loaded
	c            *config
}

func (r *replayer) overlayFile() (string, error) {
	var imp, cases strings.Builder
	pk := map[string]string{}
	for _, h := range r.L.harnesses {
		a, ok := pk[h.Pkg]
		if !ok {
			a = fmt.Sprintf("p%d", len(pk))
			pk[h.Pkg] = a
			fmt.Fprintf(&imp, "\t%s %q\n", a, h.Pkg)
		}
		fmt.Fprintf(&cases, "\t\t%q: %s.%s,\n", h.Name, a, h.Name)
	}
	rep := map[string]string{}
	init := ""
	for _, h := range r.L.harnesses {
		if h.FS && h.Prop == r.c.prop {
			hi, in, err := hookOverlay(r.dir, rep)
			if err != nil {
				return "", err
			}
			imp.WriteString(hi)
			init = "func init() {\n" + in + "}\n"
			break
		}
	}
	main := "package main\n\nimport (\n" + imp.String() + "\t\"" + modPath + "/" + symPkg + "\"\n)\n\nfunc main() {\n\tzzverif.Main(map[string]func(){\n" + cases.String() + "\t})\n}\n" + init
	mf := filepath.Join(r.dir, "main.go")
	if err := os.WriteFile(mf, []byte(main), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(r.c.repo, "internal/zzreplay/main.go")] = mf
	for k, v := range r.L.overlay {
		rep[k] = v
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(r.dir, "overlay.json")
	return of, os.WriteFile(of, b, 0o644)
}

func (r *replayer) build(race bool) (string, error) {
	of, err := r.overlayFile()
	if err != nil {
		return "", err
	}
	out := filepath.Join(r.dir, "replay")
	args := []string{"build", "-modfile=" + r.L.modfile, "-overlay", of, "-o", out}
	env := goEnv()
	if race {
		out += "-race"
		args = []string{"build", "-modfile=" + r.L.modfile, "-race", "-overlay", of, "-o", out}
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, "./internal/zzreplay")...)
	cmd.Dir = r.c.repo
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v: %s", err, b)
	}
	return out, nil
}

func (r *replayer) get(race bool) (string, error) {
	if race {
		r.rOnce.Do(func() { r.raceBin, r.raceErr = r.build(true) })
		return r.raceBin, r.raceErr
	}
	r.once.Do(func() { r.bin, r.err = r.build(false) })
	return r.bin, r.err
}

type nativeResult struct {
	kind string // ok, assert, panic, timeout, fatal, race, assume, missing
	msg  string
	obs  []string
	out  string
}

var replaySem = make(chan bool, 8)
var replayN int
var replayMu sync.Mutex

func (r *replayer) run(d *replayDoc, race bool, timeout time.Duration) nativeResult {
	bin, err := r.get(race)
	if err != nil {
		return nativeResult{kind: "missing", msg: err.Error()}
	}
	replaySem <- true
	defer func() { <-replaySem }()
	replayMu.Lock()
	replayN++
	n := replayN
	replayMu.Unlock()
	f := filepath.Join(r.dir, fmt.Sprintf("in%d.json", n))
	b, _ := json.Marshal(d)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nativeResult{kind: "missing", msg: err.Error()}
	}
	defer os.Remove(f)
	return runReplayBin(bin, f, r.dir, timeout)
}

func runReplayBin(bin, f, dir string, timeout time.Duration) nativeResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "TMPDIR="+dir)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := startOn(cmd, replayCPUs(f, strings.Contains(filepath.Base(bin), "race")))
	if err == nil {
		err = cmd.Wait()
	}
	res := nativeResult{kind: "ok"}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "ZZOBS ") {
			res.obs = append(res.obs, l[6:])
		}
		if strings.HasPrefix(l, "ZZRESULT ") {
			k, m, _ := strings.Cut(l[9:], " ")
			res.kind, res.msg = k, m
		}
	}
	res.out = se.String()
	if ctx.Err() != nil {
		res.kind = "timeout"
	} else if strings.Contains(res.out, "WARNING: DATA RACE") {
		res.kind = "race"
	} else if err != nil && res.kind == "ok" {
		res.kind = "panic"
		for _, l := range strings.Split(res.out, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
				res.msg = l
				break
			}
		}
		if strings.Contains(res.out, "all goroutines are asleep") {
			res.kind = "deadlock"
		}
	}
	return res
}

func confirms(kind string, n nativeResult) bool {
	switch n.kind {
	case "ok", "missing", "assume":
		return false
	case "timeout":
		return kind == "hang" || kind == "deadlock"
	}
	return true
}

func (in *Instance) confirm(r *replayer) {
	for i := range in.ex.Violations {
		v := &in.ex.Violations[i]
		doc := mkReplay(in, v.Inputs, v.Model, v.Gates)
		runs := 1
		if in.h.Runs > 0 {
			runs = in.h.Runs
		}
		if v.Kind == "race" || v.Kind == "deadlock" {
			runs = max(runs, 20)
		}
		to := 20 * time.Second
		ok := false
		var nr nativeResult
		for k := 0; k < runs && !ok; k++ {
			nr = r.run(doc, v.Kind == "race" || in.h.Race, to)
			ok = confirms(v.Kind, nr)
			if nr.kind == "missing" {
				break
			}
		}
		doc.Prop, doc.Kind, doc.Msg, doc.Where = in.h.Prop, v.Kind, v.Msg, v.Where
		doc.Native = nr.kind + " " + nr.msg
		v.Sig = in.h.Name + "|" + v.Msg
		if v.Kind != "assert" {
			m := v.Msg
			if k := strings.Index(m, " < "); k > 0 {
				m = m[:k]
			}
			if k := strings.LastIndex(m, ".go:"); k > 0 {
				m = m[:k+3]
			}
			v.Sig = in.h.Name + "|" + v.Kind + ": " + m
		}
		if !ok {
			in.unconfirmed = append(in.unconfirmed, v)
			in.notes = append(in.notes, fmt.Sprintf("candidate %s %q not reproduced natively (%s %s): not reported", v.Kind, v.Msg, nr.kind, nr.msg))
			if os.Getenv("GOSYM_DEBUG") != "" {
				b, _ := json.MarshalIndent(doc, "", " ")
				fmt.Fprintln(os.Stderr, string(b), nr.out)
			}
			continue
		}
		v.doc = doc
		in.confirmed = append(in.confirmed, v)
	}
}

func (in *Instance) validate(r *replayer, limit int) {
	n := 0
	cs := in.ex.completed
	step := max(1, len(cs)/max(1, limit))
	for i := 0; i < len(cs) && n < limit; i += step {
		cp := cs[i]
		if in.ex.tt.UFMode && len(cp.Obs) > 0 {
			// values through uninterpreted functions differ natively
			if len(in.ex.tt.ufs) > 0 {
				cp = &CompletedPath{Inputs: cp.Inputs, Model: cp.Model, Gates: cp.Gates}
			}
		}
		n++
		doc := mkReplay(in, cp.Inputs, cp.Model, cp.Gates)
		nr := r.run(doc, false, 30*time.Second)
		if nr.kind == "missing" {
			in.notes = append(in.notes, "replay not available: "+nr.msg)
			return
		}
		rng := false
		for _, i := range cp.Inputs {
			if i.Kind == "rng" {
				rng = true
			}
		}
		if rng || in.h.NoObs {
			if nr.kind == "ok" {
				in.validated++
			}
			continue
		}
		if nr.kind != "ok" {
			if len(in.ex.tt.ufs) > 0 {
				continue // path chosen by an uninterpreted value
			}
			in.mismatched++
			in.notes = append(in.notes, fmt.Sprintf("validation: engine completes, native run ends with %s %s", nr.kind, nr.msg))
			if os.Getenv("GOSYM_DEBUG") != "" {
				b, _ := json.MarshalIndent(doc, "", " ")
				fmt.Fprintln(os.Stderr, string(b), nr.out)
			}
			continue
		}
		if len(in.ex.tt.ufs) > 0 {
			in.validated++
			continue
		}
		k := 0
		bad := ""
		for _, o := range cp.Obs {
			s, ok := obsString(cp.Model, o)
			if k >= len(nr.obs) {
				bad = "missing observation " + o.Name
				break
			}
			if ok && strings.TrimSpace(nr.obs[k]) != strings.TrimSpace(s) {
				bad = fmt.Sprintf("observation differs: engine %q native %q", s, nr.obs[k])
				break
			}
			k++
		}
		if bad != "" {
			in.mismatched++
			in.notes = append(in.notes, "validation: "+bad)
			if os.Getenv("GOSYM_DEBUG") != "" {
				b, _ := json.MarshalIndent(doc, "", " ")
				fmt.Fprintln(os.Stderr, string(b))
			}
			continue
		}
		in.validated++
	}
}

type finding struct {
	prop, sig, text string
	used            bool
}

func loadFindings(c *config) []*finding {
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var r []*finding
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN-FINDING: property=F06 sig=<harness>|<message> :: text
		if !strings.HasPrefix(l, "KNOWN-FINDING: property=") {
			continue
		}
		rest := l[len("KNOWN-FINDING: property="):]
		p, rest, _ := strings.Cut(rest, " ")
		rest = strings.TrimPrefix(rest, "sig=")
		sig, txt, _ := strings.Cut(rest, " :: ")
		r = append(r, &finding{prop: p, sig: sig, text: txt})
	}
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|list|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	hname := fs.String("h", "", "single harness (prefix)")
	pp := fs.String("p", "", "param filter k=v,k=v")
	budget := fs.Int("budget", 0, "seconds for exploration")
	verbose := fs.Bool("v", false, "")
	noval := fs.Bool("noval", false, "")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
		if *tier == "" {
			*tier = "quick"
		}
	}
	c := &config{*repo, *verif, *tier, *prop}
	switch os.Args[1] {
	case "check":
		os.Exit(check(c, *prop, *hname, *pp, *budget, *verbose, *noval))
	case "list":
		L, err := load(c, func(h *Harness) bool { return true })
		if L != nil {
			defer os.RemoveAll(filepath.Dir(L.modfile))
		}
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		for _, h := range L.harnesses {
			fmt.Println(h.Prop, h.Name, len(h.Params))
		}
		for _, d := range L.dropped {
			fmt.Println("dropped", d)
		}
	case "replay":
		// gosym replay FILE: rebuild natively and run one recorded counterexample
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var d replayDoc
		json.Unmarshal(b, &d)
		L, err := load(c, func(h *Harness) bool { return h.Name == d.Harness })
		if L != nil {
			defer os.RemoveAll(filepath.Dir(L.modfile))
		}
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		dir, _ := os.MkdirTemp("", "gosymreplay")
		defer os.RemoveAll(dir)
		c.prop = d.Prop
		r := &replayer{L: L, c: c, dir: dir}
		nr := r.run(&d, d.Kind == "race", 60*time.Second)
		fmt.Printf("native: %s %s\n%s\n%s\n", nr.kind, nr.msg, strings.Join(nr.obs, "\n"), nr.out)
		if nr.kind != "ok" {
			os.Exit(1)
		}
	}
}

func check(c *config, prop, hname, pfilter string, budget int, verbose, noval bool) int {
	t0 := time.Now()
	if budget == 0 {
		budget = 420
		if c.tier == "thorough" {
			budget = 720
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	want := func(h *Harness) bool {
		if hname != "" {
			return strings.HasPrefix(h.Name, hname)
		}
		return h.Prop == prop
	}
	ev := &evidence{Property: prop, Tier: c.tier, Level: "model_checking"}
	ev.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	L, err := load(c, want)
	if L != nil {
		defer os.RemoveAll(filepath.Dir(L.modfile))
	}
	if err != nil {
		// the tree (or every harness) does not load: nothing decided
		fmt.Println("INCONCLUSIVE:", err)
		ev.Coverage = map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "reduced_bound": []string{err.Error()}}
		ev.write(c, t0)
		return 0
	}
	var ins []*Instance
	for _, h := range L.harnesses {
		for _, ps := range h.Params {
			in := &Instance{h: h, params: map[string]int{}, label: h.Name}
			skip := false
			for _, p := range ps {
				in.params[p.k] = p.v
				in.label += fmt.Sprintf(" %s=%d", p.k, p.v)
			}
			if pfilter != "" {
				for _, f := range strings.Split(pfilter, ",") {
					k, v, _ := strings.Cut(f, "=")
					n, _ := strconv.Atoi(v)
					if x, ok := in.params[k]; ok && x != n {
						skip = true
					}
				}
			}
			if !skip {
				ins = append(ins, in)
			}
		}
	}
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 0
	}
	defer os.RemoveAll(dir)
	rp := &replayer{L: L, c: c, dir: dir}
	go func() {
		if len(ins) > 0 {
			rp.get(false)
		}
	}()
	workers := runtime.NumCPU()
	var wg sync.WaitGroup
	q := make(chan *Instance, len(ins))
	for _, in := range ins {
		q <- in
	}
	close(q)
	var mu sync.Mutex
	fnd := findings(loadFindings(c))
	vlim := 3
	if len(ins) > 60 {
		vlim = 1
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for in := range q {
				mu.Lock()
				dl := deadline
				mu.Unlock()
				if time.Now().After(dl) {
					continue
				}
				in.run(L, dl)
				in.confirm(rp)
				if !noval {
					in.validate(rp, vlim)
				}
				mu.Lock()
				if verbose {
					in.print()
				}
				in.digest()
				if d := time.Now().Add(15 * time.Second); fnd.unlisted(in) && d.Before(deadline) {
					deadline = d // violated: no need to explore everything else
				}
				mu.Unlock()
			}
		}()
	}
	done := make(chan bool)
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Until(deadline.Add(90 * time.Second))):
		// an instance does not react to its time limit: report without it
		mu.Lock()
		for i, in := range ins {
			if in.d == nil {
				ins[i] = &Instance{h: in.h, params: in.params, label: in.label}
			}
		}
		code := report(c, ev, prop, L, ins, t0)
		os.RemoveAll(dir)
		if L != nil {
			os.RemoveAll(filepath.Dir(L.modfile))
		}
		os.Exit(code)
	}
	return report(c, ev, prop, L, ins, t0)
}

type findings []*finding

// unlisted: whether an instance has a confirmed violation that is no known finding
func (fs findings) unlisted(in *Instance) bool {
next:
	for _, v := range in.confirmed {
		for _, f := range fs {
			if f.prop == v.doc.Prop && f.sig == v.Sig {
				continue next
			}
		}
		return true
	}
	return false
}
