package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"
)

// A target is one simulated program: a package of the repository compiled with
// its harness against the patched Go distribution.
type target struct {
	name    string
	mod     string // module directory under the repository
	pkg     string
	harness map[string]string // destination under the repository -> source under sim/harness
	borrow  string            // harness files of this directory, too, in the package of the program (all but worker.go)
	simPKI  bool              // embed the simulated certificate store
	real    []string          // components that run real code
	stub    []string          // components replaced by the simulator
}

var targets = map[string]*target{
	"fetch": {
		name: "fetch", mod: "tools", pkg: "./cmd/fetch-certs",
		harness: map[string]string{"tools/cmd/fetch-certs": "fetch"},
		real:    []string{"tools/cmd/fetch-certs (all of it)", "golang.org/x/sync/errgroup", "net/http.Client", "internal/cert and internal/security as far as the tool uses them", "the file system below the fault layer"},
		stub:    []string{"HTTP transport and servers", "clock and timers", "goroutine scheduler", "process exit and crash"},
	},
	"lib": {
		name: "lib", mod: ".", pkg: ".", simPKI: true,
		harness: map[string]string{".": "lib"},
		real:    []string{"the whole library (root package, internal/...)", "net/http.Client", "protobuf runtime", "Go crypto"},
		stub:    []string{"HTTP transport and servers", "contents of the embedded certificate store (a simulated hierarchy)", "clock and timers", "goroutine scheduler"},
	},
	"libreal": {
		name: "libreal", mod: ".", pkg: ".",
		harness: map[string]string{".": "lib"},
		real:    []string{"the whole library with the certificate store it ships", "net/http.Client", "protobuf runtime", "Go crypto"},
		stub:    []string{"HTTP transport and servers", "clock and timers", "goroutine scheduler"},
	},
	"cli": {
		name: "cli", mod: "cmd/tachograph", pkg: ".",
		harness: map[string]string{"cmd/tachograph": "cli"}, borrow: "lib",
		real: []string{"cmd/tachograph (cobra and fang included)", "the library", "the file system below the fault layer"},
		stub: []string{"standard output and error", "clock and timers", "goroutine scheduler", "process exit"},
	},
}

func (c *ctl) env() []string {
	var out []string
	drop := map[string]bool{"GOFLAGS": true, "GOCACHE": true, "GOROOT": true, "GOTOOLCHAIN": true, "GOWORK": true, "GOPROXY": true, "GODEBUG": true, "GOMAXPROCS": true, "GOGC": true, "GOMEMLIMIT": true, "GOEXPERIMENT": true, "CGO_ENABLED": true}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		if !drop[k] {
			out = append(out, kv)
		}
	}
	return append(out,
		"GOROOT="+c.goroot, "GOCACHE="+filepath.Join(c.cache, "go-build"), "GOFLAGS=-mod=readonly -buildvcs=false",
		"GOTOOLCHAIN=local", "GOWORK=off", "GOPROXY=off")
}

func (c *ctl) binary(t *target, race bool) string {
	n := t.name
	if race {
		n += "-race"
	}
	return filepath.Join(c.cache, "bin", n+".test")
}

// build compiles a target from the repository's working tree.
func (c *ctl) build(t *target, race bool) error {
	t0 := time.Now()
	skip := map[string]bool{}
	for try := 0; ; try++ {
		msg, err := c.buildOnce(t, race, skip)
		if err == nil {
			if len(skip) > 0 {
				c.notes = append(c.notes, fmt.Sprintf("%s: %d files compiled without scheduling points: %v", t.name, len(skip), keys(skip)))
			}
			c.logf("built %s race=%v in %.1fs", t.name, race, time.Since(t0).Seconds())
			return nil
		}
		if try == 4 {
			return fmt.Errorf("build of %s: %v\n%s", t.name, err, msg)
		}
		if try == 3 {
			srcs, _, _ := repoSources(c.repo)
			for _, p := range srcs {
				rel, _ := filepath.Rel(c.repo, p)
				skip[rel] = true
			}
			continue
		}
		before := len(skip)
		for _, line := range strings.Split(msg, "\n") {
			f, _, ok := strings.Cut(strings.TrimSpace(line), ".go:")
			if !ok {
				continue
			}
			f += ".go"
			f = strings.TrimPrefix(f, "./")
			for _, base := range []string{filepath.Join(c.repo, t.mod), c.repo} {
				p := f
				if !filepath.IsAbs(p) {
					p = filepath.Join(base, f)
				}
				if i := strings.Index(p, "/ov/"+t.name+"/src/"); i >= 0 {
					p = filepath.Join(c.repo, p[i+len("/ov/"+t.name+"/src/"):])
				}
				if _, err := os.Stat(p); err == nil {
					if rel, err := filepath.Rel(c.repo, p); err == nil && !strings.HasPrefix(rel, "..") {
						skip[rel] = true
					}
					break
				}
			}
		}
		if len(skip) == before {
			try = 2
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

func (c *ctl) buildOnce(t *target, race bool, skip map[string]bool) (string, error) {
	o := &overlay{dir: filepath.Join(c.cache, "ov", t.name), Replace: map[string]string{}}
	if err := o.stdOverlay(c.goroot, c.sim); err != nil {
		return "", err
	}
	if err := o.instrumentRepo(c.repo, skip); err != nil {
		return "", err
	}
	for dst, src := range t.harness {
		ents, err := os.ReadDir(filepath.Join(c.sim, "harness", src))
		if err != nil {
			return "", err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				name := "zz_sim_" + strings.TrimSuffix(e.Name(), ".go") + "_test.go"
				o.Replace[filepath.Join(c.repo, dst, name)] = filepath.Join(c.sim, "harness", src, e.Name())
			}
		}
	}
	if t.borrow != "" {
		dir := filepath.Join(o.dir, "borrowed")
		os.RemoveAll(dir)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return "", err
		}
		ents, err := os.ReadDir(filepath.Join(c.sim, "harness", t.borrow))
		if err != nil {
			return "", err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "worker.go" {
				continue
			}
			b, err := os.ReadFile(filepath.Join(c.sim, "harness", t.borrow, e.Name()))
			if err != nil {
				return "", err
			}
			_, b, _ = bytes.Cut(b, []byte("\n"))
			p := filepath.Join(dir, e.Name())
			if err := os.WriteFile(p, append([]byte("package main\n"), b...), 0o644); err != nil {
				return "", err
			}
			o.Replace[filepath.Join(c.repo, t.mod, "zz_sim_"+t.borrow+"_"+strings.TrimSuffix(e.Name(), ".go")+"_test.go")] = p
		}
	}
	if t.simPKI {
		if err := c.simStore(o); err != nil {
			return "", err
		}
	}
	ov := filepath.Join(o.dir, "overlay.json")
	if err := o.write(ov); err != nil {
		return "", err
	}
	bin := c.binary(t, race)
	os.MkdirAll(filepath.Dir(bin), 0o755)
	args := []string{"test", "-vet=off", "-c", "-overlay", ov, "-o", bin, "-trimpath=false"}
	if race {
		args = append(args, "-race")
	}
	args = append(args, t.pkg)
	cmd := exec.Command(filepath.Join(c.goroot, "bin", "go"), args...)
	cmd.Dir = filepath.Join(c.repo, t.mod)
	cmd.Env = c.env()
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	return out.String(), err
}

func goroot() string { return runtime.GOROOT() }
