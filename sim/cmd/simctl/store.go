package main

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/sim/std/simpki"
)

// simStore replaces the shipped certificate store by the simulated hierarchy.
func (c *ctl) simStore(o *overlay) error {
	dir := filepath.Join(c.repo, "internal/cert/certcache")
	for _, g := range []string{"g1", "g2"} {
		m, _ := filepath.Glob(filepath.Join(dir, g, "*.bin"))
		for _, f := range m {
			o.Replace[f] = ""
		}
	}
	put := func(rel string, b []byte) error {
		p := filepath.Join(o.dir, "store", rel)
		os.MkdirAll(filepath.Dir(p), 0o755)
		o.Replace[filepath.Join(dir, rel)] = p
		if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
			return nil
		}
		return os.WriteFile(p, b, 0o644)
	}
	if err := put("root/EC_PK.bin", simpki.StoreRoot()); err != nil {
		return err
	}
	if err := put("index.json", simpki.StoreIndex()); err != nil {
		return err
	}
	for _, ca := range simpki.CAs() {
		if ca.Embedded {
			if err := put(fmt.Sprintf("g%d/%s.bin", ca.Gen, ca.Ref()), ca.Bytes); err != nil {
				return err
			}
		}
	}
	return nil
}
