package tachograph_test

import (
	"bytes"
	"fmt"
	"simrt"

	"github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// C28: the storage under the download of a vehicle unit is damaged inside some
// of the transfers.

func init() { simScenarios["C28"] = simrt.Scenario{Run: simC28} }

var simVUKinds = []protoreflect.Name{"", "overview", "activities", "events_and_faults", "detailed_speed", "technical_data"}

// simVULists are the transfers a file reports, by kind.
func simVULists(gen int, f *tachographv1.File) (out [6][]protoreflect.Message, ok bool) {
	m := f.GetVehicleUnit().ProtoReflect()
	fd := m.Descriptor().Fields().ByName([]protoreflect.Name{"", "gen1", "gen2_v1", "gen2_v2"}[gen])
	if f.GetType() != tachographv1.File_VEHICLE_UNIT || !f.HasVehicleUnit() || !m.Has(fd) {
		return out, false
	}
	g := m.Get(fd).Message()
	for k := 1; k <= 5; k++ {
		fd := g.Descriptor().Fields().ByName(simVUKinds[k])
		if fd.IsList() {
			for i, l := 0, g.Get(fd).List(); i < l.Len(); i++ {
				out[k] = append(out[k], l.Get(i).Message())
			}
		} else if g.Has(fd) {
			out[k] = append(out[k], g.Get(fd).Message())
		}
	}
	return out, true
}

func simC28(r *simrt.Run) {
	v := simNewVU(r, "vu")
	for k, days := 0, r.Int("days", 6); k < days; k++ {
		v.day("life")
	}
	if r.Chance("others", 3, 4) {
		v.others("life")
	}
	ts := v.download("life")
	if len(simVUFile(ts)) > 1<<18 {
		return
	}
	good, err, ok := simRead(r, "parse the undamaged file", simVUFile(ts))
	if !ok {
		return
	}
	if err != nil {
		r.Fail("genuine download refused", "a genuine download was not read: %s", simShort(err.Error()))
		return
	}
	want, ok := simVULists(v.gen, good)
	if !ok {
		r.Fail("generation", "a genuine download of generation %d was read as another", v.gen)
		return
	}
	n := 12
	if r.Tier == "thorough" {
		n = 48
	}
	for i := 0; i < n && !r.Failed(); i++ {
		// Damage one to three transfers, their tags and the rest of the file
		// excepted.
		hit := map[int]string{}
		bad := append([]simTransfer(nil), ts...)
		for j, k := 0, 1+r.Weighted("transfers", 4, 2, 1); j < k; j++ {
			t := r.Int("transfer", len(ts))
			if ts[t].trep == 0 {
				continue // says which version the rest is of
			}
			b := bytes.Clone(bad[t].raw)
			switch r.Weighted("where", 3, 2, 3, 2) {
			case 0:
				hit[t] += simDamage(r, "damage", b)
			case 1:
				hit[t] += "signature: " + simDamage(r, "damage", b[len(b)-len(ts[t].sig):])
			case 2:
				hit[t] += "head: " + simDamage(r, "damage", b[:min(12, len(b))])
			case 3:
				// Values only: one byte or two, away from the counts more often than not.
				at := r.Int("byte", len(b))
				b[at] ^= byte(1 + r.Int("flip", 255))
				r.Fault("byte changed")
				hit[t] += fmt.Sprintf("byte %d", at)
			}
			bad[t].raw = b
		}
		if len(hit) == 0 {
			continue
		}
		data := simVUFile(bad)
		var f *tachographv1.File
		if !r.Try("parse", func() { f, err = tachograph.UnmarshalFile(bytes.Clone(data)) }) {
			return
		}
		r.Logf("generation %d, %d transfers, damaged %v: error=%v", v.gen, len(ts), hit, err != nil)
		if err != nil {
			continue
		}
		got, ok := simVULists(v.gen, f)
		if !ok {
			r.Fail("generation", "damage inside transfers (%v) changed the generation of the file: %v %v", hit, f.GetVehicleUnit().GetGeneration(), f.GetVehicleUnit().GetVersion())
			return
		}
		r.Nontrivial()
		var next [6]int
		shifted := false
		for t := range bad {
			if bad[t].trep == 0 {
				continue
			}
			k := int(bad[t].trep & 15)
			j := next[k]
			next[k]++
			path := fmt.Sprintf("%s[%d]", simVUKinds[k], j)
			if j >= len(got[k]) {
				r.Fail("transfer lost", "damage inside transfers (%v): %s is not reported", hit, path)
				return
			}
			if _, ok := hit[t]; !ok {
				if d := simDiffMsg(path, got[k][j], want[k][j]); d != "" {
					r.Fail("other transfer changed: "+simFieldClass(d), "damage inside other transfers (%v) changed what is reported: %s (damaged/undamaged)", hit, d)
					return
				}
				continue
			}
			raw := got[k][j].Get(got[k][j].Descriptor().Fields().ByName("raw_data")).Bytes()
			if len(raw) != len(bad[t].raw) {
				shifted = true // the damage is to a length: what follows begins elsewhere
				r.Probe("damaged length of a transfer and the file was read")
				break
			}
			if !bytes.Equal(raw, bad[t].raw) {
				r.Fail("bytes of a transfer", "the bytes reported for the damaged %s (%s) are not those in the file", path, hit[t])
				return
			}
			if sf := got[k][j].Descriptor().Fields().ByName("signature"); sf != nil && v.gen == 1 {
				if s := got[k][j].Get(sf).Bytes(); !bytes.Equal(s, raw[len(raw)-len(ts[t].sig):]) {
					r.Fail("signature of a transfer", "the signature reported for the damaged %s (%s) is not that in the file", path, hit[t])
					return
				}
			}
		}
		for k := range got {
			if !shifted && len(got[k]) != next[k] {
				r.Fail("transfer invented", "damage inside transfers (%v): %d transfers of %s are reported, %d are in the file", hit, len(got[k]), simVUKinds[k], next[k])
				return
			}
		}
		simrt.Count("damaged files compared", 1)
		// A damaged transfer alone reads the same.
		t := r.Int("alone", len(ts))
		for k := range ts {
			if _, ok := hit[k]; ok && r.Chance("hit", 2, 3) {
				t = k
			}
		}
		if !shifted && bad[t].trep != 0 && (v.gen < 3 || bad[t].trep>>4 == 3) {
			k, j := int(bad[t].trep&15), 0
			for _, x := range bad[:t] {
				if x.trep != 0 && int(x.trep&15) == k {
					j++
				}
			}
			var g *tachographv1.File
			if !r.Try("parse one alone", func() { g, err = tachograph.UnmarshalFile(bad[t].bytes()) }) {
				return
			}
			alone, ok := simVULists(v.gen, g)
			if err != nil || !ok || len(alone[k]) != 1 {
				r.Fail("transfer alone", "%s[%d] (%v) is read among others and not alone: %v", simVUKinds[k], j, hit[t], err)
				return
			}
			if d := simDiffMsg(fmt.Sprintf("%s[%d]", simVUKinds[k], j), got[k][j], alone[k][0]); d != "" {
				r.Fail("other transfer changed: "+simFieldClass(d), "what is reported for a transfer (%v) depends on the others: %s (among others/alone)", hit[t], d)
				return
			}
		}
	}
}
