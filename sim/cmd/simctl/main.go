// simctl builds the simulated programs from the repository's working tree,
// searches seeds for violations of a property, confirms, minimises and replays
// them, and writes the evidence.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

type ctl struct {
	verif, sim, repo, cache, goroot, scratch string
	tier                                     string
	seed                                     uint64
	notes                                    []string
	t0                                       time.Time
}

func (c *ctl) logf(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "[%6.1fs] %s\n", time.Since(c.t0).Seconds(), fmt.Sprintf(format, args...))
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simctl setup | check ID | replay FILE | run ID [count] | build TARGET")
	}
	c := &ctl{verif: os.Getenv("SIM_VERIF"), repo: os.Getenv("SIM_REPO"), t0: time.Now(), tier: os.Getenv("VERIF_TIER"), seed: 1}
	if c.verif == "" {
		c.verif = "/verif"
	}
	if c.repo == "" {
		c.repo = "/repo"
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			c.seed = uint64(v)
		}
	}
	c.sim = filepath.Join(c.verif, "sim")
	c.cache = filepath.Join(c.verif, ".cache")
	if v := os.Getenv("SIM_CACHE"); v != "" {
		c.cache = v
	}
	c.goroot = os.Getenv("GOROOT")
	if c.goroot == "" {
		out, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			die("go env GOROOT: %v", err)
		}
		c.goroot = strings.TrimSpace(string(out))
	}
	_ = runtime.NumCPU
	os.Unsetenv("SIM_CONFIG")
	os.Unsetenv("SIM_LIFE")
	switch os.Args[1] {
	case "setup":
		built := map[string]bool{}
		for _, p := range props {
			for _, ph := range p.phases {
				key := fmt.Sprint(ph.target, ph.race)
				if built[key] {
					continue
				}
				built[key] = true
				if err := c.build(targets[ph.target], ph.race); err != nil {
					// A broken tree is for the checks to report.
					fmt.Fprintln(os.Stderr, err)
				}
			}
		}
	case "build":
		race := len(os.Args) > 3
		if err := c.build(targets[os.Args[2]], race); err != nil {
			die("%v", err)
		}
	case "check":
		if len(os.Args) != 3 {
			die("check ID")
		}
		os.Exit(c.check(os.Args[2]))
	case "run":
		n := 1
		if len(os.Args) > 3 {
			n, _ = strconv.Atoi(os.Args[3])
		}
		os.Exit(c.show(os.Args[2], n))
	case "replay":
		os.Exit(c.replay(os.Args[2]))
	default:
		die("unknown command %s", os.Args[1])
	}
}
