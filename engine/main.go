package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadEngine(dir string, pats []string, cfg *Config, buildFlags []string) (*Engine, error) {
	pc := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, BuildFlags: buildFlags, Env: append(os.Environ(), "GOEXPERIMENT=nojsonv2")}
	ps, err := packages.Load(pc, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, fset: prog.Fset, globIdx: map[*ssa.Global]int{}, volatile: map[*ssa.Package]bool{}, replace: map[string]*ssa.Function{}, cfg: cfg, pkgByP: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		e.pkgByP[path] = p
		if strings.HasPrefix(path, cfg.RepoMod) || strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, "github.com/syndtr/") || path == "crypto/rand" {
			e.volatile[p] = true
		}
	}
	if rt := e.pkgByP["runtime"]; rt != nil {
		e.errStrT = e.canon(rt.Type("errorString").Type())
	}
	if r := e.pkgByP["reflect"]; r != nil {
		e.rtypeT = e.canon(types.NewPointer(r.Type("rtype").Type()))
	}
	// model replacements: functions of verif/models/... with a "//model: name" are registered by table
	for full, repl := range modelTable {
		i := strings.LastIndex(repl, ".")
		if p := e.pkgByP[repl[:i]]; p != nil {
			if fn := p.Func(repl[i+1:]); fn != nil {
				e.replace[full] = fn
			}
		}
	}
	return e, nil
}

// modelTable maps a real function to a Go model of it.
var modelTable = map[string]string{
	"crypto/aes.NewCipher":                      "verif/mcrypto.NewCipher",
	"crypto/cipher.NewCBCEncrypter":             "verif/mcrypto.NewCBCEncrypter",
	"crypto/cipher.NewCBCDecrypter":             "verif/mcrypto.NewCBCDecrypter",
	"crypto/cipher.NewCTR":                      "verif/mcrypto.NewCTR",
	"crypto/cipher.NewOFB":                      "verif/mcrypto.NewCTR",
	"crypto/cipher.NewGCM":                      "verif/mcrypto.NewGCM",
	"crypto/cipher.NewGCMWithNonceSize":         "verif/mcrypto.NewGCMWithNonceSize",
	"golang.org/x/crypto/chacha20poly1305.NewX": "verif/mcrypto.NewX",
	"golang.org/x/crypto/chacha20poly1305.New":  "verif/mcrypto.NewChaCha",
	"crypto/rand.Read":                          "verif/mcrypto.RandRead",
	"os.Create":                                 "verif/mos.Create",
	"os.Open":                                   "verif/mos.Open",
	"os.OpenFile":                               "verif/mos.OpenFile",
	"os.CreateTemp":                             "verif/mos.CreateTemp",
	"io/ioutil.TempFile":                        "verif/mos.CreateTemp",
	"os.Rename":                                 "verif/mos.Rename",
	"os.Remove":                                 "verif/mos.Remove",
	"os.WriteFile":                              "verif/mos.WriteFile",
	"os.ReadFile":                               "verif/mos.ReadFile",
	"io/ioutil.WriteFile":                       "verif/mos.WriteFile",
	"io/ioutil.ReadFile":                        "verif/mos.ReadFile",
	"os.Chmod":                                  "verif/mos.ChmodName",
	"(*os.File).Write":                          "verif/mos.Write",
	"(*os.File).WriteString":                    "verif/mos.WriteString",
	"(*os.File).Read":                           "verif/mos.Read",
	"(*os.File).Seek":                           "verif/mos.Seek",
	"(*os.File).Truncate":                       "verif/mos.Truncate",
	"(*os.File).Sync":                           "verif/mos.Sync",
	"(*os.File).Close":                          "verif/mos.Close",
	"(*os.File).Name":                           "verif/mos.Name",
	"(*os.File).Chmod":                          "verif/mos.Chmod",
	"(*google.golang.org/grpc.ClientConn).Invoke":    "verif/mgrpc.Invoke",
	"(*google.golang.org/grpc.ClientConn).NewStream": "verif/mgrpc.NewStream",
	"(*github.com/gorilla/websocket.Upgrader).Upgrade": "verif/mws.Upgrade",
	"(*github.com/gorilla/websocket.Conn).WriteMessage": "verif/mws.WriteMessage",
	"(*github.com/gorilla/websocket.Conn).WriteJSON": "verif/mws.WriteJSON",
	"(*github.com/gorilla/websocket.Conn).WriteControl": "verif/mws.WriteControl",
	"(*github.com/gorilla/websocket.Conn).ReadMessage": "verif/mws.ReadMessage",
	"(*github.com/gorilla/websocket.Conn).NextReader": "verif/mws.NextReader",
	"(*github.com/gorilla/websocket.Conn).Close": "verif/mws.Close",
	"(*github.com/gorilla/websocket.Conn).SetReadDeadline": "verif/mws.SetDeadline",
	"(*github.com/gorilla/websocket.Conn).SetWriteDeadline": "verif/mws.SetDeadline",
	"(*github.com/gorilla/websocket.Conn).SetReadLimit": "verif/mws.SetReadLimit",
	"(*github.com/gorilla/websocket.Conn).SetPongHandler": "verif/mws.SetPongHandler",
}

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "check":
			os.Exit(checkMain(os.Args[2:]))
		case "replay":
			os.Exit(replayMain(os.Args[2:]))
		}
	}
	devMain()
}

func devMain() {
	dir := flag.String("dir", "/verif/harness", "harness module")
	pkg := flag.String("pkg", "", "harness package (import path)")
	fn := flag.String("fn", "", "harness function")
	sched := flag.String("sched", "det", "det|pb|delay|full")
	races := flag.Bool("races", true, "look for data races")
	pre := flag.Int("preempt", 2, "preemption/delay bound")
	timers := flag.String("timers", "idle", "idle|any")
	workers := flag.Int("workers", 8, "workers")
	budget := flag.Duration("budget", 10*time.Minute, "time budget")
	maxPaths := flag.Int64("maxpaths", 0, "path budget")
	params := flag.String("params", "", "k=v,k=v")
	mapPerm := flag.Bool("mapperm", true, "explore map iteration orders of repo code")
	solver := flag.String("solver", "z3", "solver binary")
	maxSteps := flag.Int64("maxsteps", 3000000, "steps per path")
	flag.Parse()
	cfg := &Config{RepoMod: "github.com/inklabs/rangedb", MaxSteps: *maxSteps, MaxDepth: 3000, Solver: *solver, TimeoutMs: 20000, Workers: *workers,
		Preempt: *pre, Races: *races, SchedMode: *sched, TimerMode: *timers, MapPerm: *mapPerm, MaxPaths: *maxPaths, Concretize: 300, Params: map[string]int{}}
	for _, kv := range strings.Split(*params, ",") {
		var k string
		var v int
		if i := strings.IndexByte(kv, '='); i > 0 {
			k = kv[:i]
			fmt.Sscanf(kv[i+1:], "%d", &v)
			cfg.Params[k] = v
		}
	}
	t0 := time.Now()
	e, err := loadEngine(*dir, []string{*pkg}, cfg, nil)
	if err != nil {
		fmt.Println("LOAD", err)
		os.Exit(2)
	}
	t1 := time.Now()
	p := e.pkgByP[*pkg]
	entry := p.Func(*fn)
	if entry == nil {
		fmt.Println("no such harness", *fn)
		os.Exit(2)
	}
	x := newExplorer(e, entry, *fn)
	x.deadline = time.Now().Add(*budget)
	x.run()
	fmt.Printf("load %.1fs run %.1fs paths %d done %d redundant %d infeasible %d asserts %d (trivial %d) dom %d cache %d queries %d (sat %d unsat %d unk %d) solver %.1fs steps %d reached %v\n",
		t1.Sub(t0).Seconds(), time.Since(t1).Seconds(), x.paths, x.donePaths, x.redundant, x.infeasible, x.asserts, x.trivial, x.domN, x.cacheN, x.queries, x.satN, x.unsatN, x.unkN, x.solverTime.Seconds(), x.steps, sortedKeys(x.reached))
	if x.stop {
		fmt.Println("stopped:", x.stopMsg)
	}
	for m, n := range x.unsupp {
		fmt.Printf("UNSUPPORTED x%d %s\n", n, m)
	}
	for m, n := range x.boundEnds {
		fmt.Printf("BOUND x%d %s\n", n, m)
	}
	for _, v := range x.viols {
		b, _ := json.MarshalIndent(v, "", " ")
		fmt.Println("VIOL", string(b))
	}
	if x.solverErr != nil {
		fmt.Println("solver error:", x.solverErr)
	}
	if debugOut {
		for _, s := range x.samples {
			fmt.Println("sample:", s)
		}
	}
}
