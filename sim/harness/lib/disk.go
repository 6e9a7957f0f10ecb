package tachograph_test

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net/http"
	"os"
	"runtime"
	"simrt"
	"slices"
	"sort"
	"strings"

	"github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// C10 to C14: files as they come back from storage. A simulated card or
// vehicle unit is downloaded, the download is written to a medium that damages
// it, and the library reads what is left.

func init() {
	simScenarios["C10"] = simrt.Scenario{Run: simC10}
	simScenarios["C11"] = simrt.Scenario{Run: simC11}
	simScenarios["C12"] = simrt.Scenario{Run: simC12}
	simScenarios["C13"] = simrt.Scenario{Run: simC13}
	simScenarios["C14"] = simrt.Scenario{Run: simC14}
}

// simMedium is a download on its way through storage.
type simMedium struct {
	kind string // card, raw, vu
	data []byte
	ends []int // where each record is complete, ascending
	fs   []simFileMsg
	recs []simRec
	ts   []simTransfer
	gen  int
	card *simCardLife
}

func (m *simMedium) String() string {
	return fmt.Sprintf("%s of %d records, %d bytes", m.kind, len(m.ends), len(m.data))
}

// start is where record i begins.
func (m *simMedium) start(i int) int {
	if i == 0 {
		return 0
	}
	return m.ends[i-1]
}

func (m *simMedium) seal() *simMedium {
	n := 0
	for _, r := range m.recs {
		n += 5 + len(r.val)
		m.ends = append(m.ends, n)
	}
	for _, t := range m.ts {
		n += 2 + len(t.raw)
		m.ends = append(m.ends, n)
	}
	if m.kind == "vu" {
		m.data = simVUFile(m.ts)
	} else {
		m.data = simTLV(m.recs...)
	}
	if len(m.data) != n {
		panic("sizes of a download")
	}
	return m
}

// simDownload draws a genuine download.
func simDownload(r *simrt.Run, l string, card, raw, vu int) *simMedium {
	switch r.Weighted(l+"/kind", card, raw, vu) {
	case 1:
		return simRawCard(r, l)
	case 2:
		v := simNewVU(r, l+"/vu")
		for k, days := 0, r.Int(l+"/days", 4); k < days; k++ {
			v.day(l + "/vu")
		}
		if r.Chance(l+"/others", 3, 4) {
			v.others(l + "/vu")
		}
		m := &simMedium{kind: "vu", gen: v.gen, ts: v.download(l + "/vu")}
		return m.seal()
	}
	c := simIssue(r, l+"/card")
	if r.Chance(l+"/used", 7, 8) {
		c.live(l+"/card", 1+r.Int(l+"/sessions", 8), 1+r.Int(l+"/changes", 30))
	}
	m := &simMedium{kind: "card", card: c}
	m.fs = c.download(l + "/card")
	if r.Chance(l+"/partial", 1, 5) {
		// The tool did not read every file.
		var fs []simFileMsg
		for i, f := range m.fs {
			if i < 2 || !c.p.one(3) {
				fs = append(fs, f)
			}
		}
		m.fs = fs
	}
	m.recs = simJoin(m.fs)
	return m.seal()
}

// simRawCard is a card of another kind, which the library keeps in raw form.
func simRawCard(r *simrt.Run, l string) *simMedium {
	p := &simPen{s: uint64(r.Bits(l + "/raw"))}
	m := &simMedium{kind: "raw"}
	s := simSamples()
	m.recs = []simRec{{0x0002, 0, s["icc"]}, {0x0005, 0, s["ic"]}}
	fids := []uint16{0x0501, 0x0520, 0x0509, 0x050a, 0x050b, 0x050c, 0x0508, 0x0502, 0x0503, 0x0504, 0x0505, 0x0506, 0xc100, 0xc108, 0x2020, 0x0000, 0xffff}
	n := 1 + p.n(14)
	for i := 0; i < n; i++ {
		k := p.n(60)
		if p.one(6) {
			k = p.n(3000)
		}
		if p.one(10) {
			k = 0
		}
		if p.one(100) {
			// as long as a record can be
			k = 0xffff - p.n(40)
		}
		f := simRec{fids[p.n(len(fids))], byte(2 * p.n(2)), p.bytes(k)}
		if p.one(12) {
			f.app = byte(p.n(256))
		}
		m.recs = append(m.recs, f)
		if p.one(2) {
			m.recs = append(m.recs, simRec{f.fid, f.app | 1, p.bytes(64 + 64*p.n(2))})
		}
	}
	// at least one file no driver card has
	i := 2 + p.n(len(m.recs)-1)
	m.recs = slices.Insert(m.recs, i, simRec{[]uint16{0x0509, 0x050a, 0x050b, 0x050c}[p.n(4)], byte(2 * p.n(2)), p.bytes(p.n(200))})
	return m.seal()
}

// simRead reads a file. ok is false if that panicked.
func simRead(r *simrt.Run, what string, data []byte) (f *tachographv1.File, err error, ok bool) {
	ok = r.Try(what, func() { f, err = tachograph.UnmarshalFile(data) })
	if ok && err == nil && f == nil {
		r.Fail("nothing", "%s: neither a file nor an error", what)
		ok = false
	}
	return
}

// ------------------------------------------------------------------- C12

// simWithoutSig is want without the signature.
func simWithoutSig(m proto.Message) proto.Message {
	m = proto.Clone(m)
	x := m.ProtoReflect()
	if fd := x.Descriptor().Fields().ByName("signature"); fd != nil {
		x.Clear(fd)
	}
	return m
}

// simCheckPart compares a parsed file with the first n records of a download.
func simCheckPart(r *simrt.Run, m *simMedium, n int, f *tachographv1.File) (string, string) {
	switch m.kind {
	case "raw":
		if f.GetType() != tachographv1.File_RAW_CARD {
			return "", "" // the files that set the card apart were cut off
		}
		rs := f.GetRawCard().GetRecords()
		if len(rs) != n {
			return "records", fmt.Sprintf("%d records reported, %d complete", len(rs), n)
		}
		for i, x := range rs {
			w := m.recs[i]
			if int(x.GetTag()) != int(w.fid)<<8|int(w.app) || int(x.GetLength()) != len(w.val) || !bytes.Equal(x.GetValue(), w.val) {
				return "record differs", fmt.Sprintf("record %d: tag %06x length %d reported, %06x length %d on the card (or other bytes)", i, x.GetTag(), x.GetLength(), int(w.fid)<<8|int(w.app), len(w.val))
			}
		}
		return "", ""
	case "vu":
		if m.gen == 3 {
			newer := false
			for _, t := range m.ts[:n] {
				newer = newer || t.trep == 0 || t.trep>>4 == 3
			}
			if !newer {
				return "", "" // the version cannot be told
			}
		}
		return simCheckVU(m.gen, m.ts[:n], f)
	}
	var fs []simFileMsg
	i := 0
	for _, x := range m.fs {
		k := len(x.recs())
		if i+k <= n {
			fs = append(fs, x)
		} else if i < n {
			x.sig = nil
			if x.want != nil {
				x.want = simWithoutSig(x.want)
			}
			fs = append(fs, x)
		}
		i += k
	}
	if len(fs) < 2 {
		return "", ""
	}
	unmarked := 0
	return simCheckCard(r, fs, f, &unmarked)
}

func simC12(r *simrt.Run) {
	m := simDownload(r, "file", 4, 1, 4)
	r.Logf("%v", m)
	refs := map[int]*tachographv1.File{}
	errs := map[int]error{}
	n := 24
	if r.Tier == "thorough" {
		n = 96
	}
	for i := 0; i < n && !r.Failed(); i++ {
		var cut int
		if r.Chance("near", 1, 2) {
			k := r.Int("record", len(m.ends))
			cut = m.ends[k] + r.Int("delta", 17) - 8
		} else {
			cut = r.Pos("cut", len(m.data)+1)
		}
		cut = max(0, min(cut, len(m.data)))
		r.Fault("file cut short")
		k := sort.SearchInts(m.ends, cut+1) // complete records
		keep := m.start(k)
		f, err, ok := simRead(r, "parse", bytes.Clone(m.data[:cut]))
		if !ok {
			return
		}
		r.Logf("cut at %d after %d records: error=%v", cut, k, err != nil)
		if err != nil {
			if cut == len(m.data) {
				r.Fail("genuine file refused", "a complete download was not read: %s", simShort(err.Error()))
			}
			continue
		}
		r.Nontrivial()
		if k == 0 {
			r.Fail("invented", "a file was reported although no record was complete (%d of %d bytes)", cut, m.ends[0])
			return
		}
		if _, done := errs[k]; !done {
			refs[k], errs[k], ok = simRead(r, "parse", bytes.Clone(m.data[:keep]))
			if !ok {
				return
			}
			if errs[k] == nil {
				if class, msg := simCheckPart(r, m, k, refs[k]); class != "" {
					r.Fail("part: "+class, "%d complete records of a cut file: %s", k, msg)
					return
				}
			}
		}
		if cut != keep {
			r.Probe("a cut inside a record was accepted")
			if errs[k] != nil {
				r.Fail("invented", "the file cut at byte %d was read; its %d complete records alone are not: %s", cut, k, simShort(errs[k].Error()))
				return
			}
			if d := simDiffMsg("file", f.ProtoReflect(), refs[k].ProtoReflect()); d != "" {
				r.Fail("cut record reported", "the file cut at byte %d differs from its %d complete records: %s", cut, k, d)
				return
			}
		}
		if k == len(m.ends) {
			r.Probe("complete file")
		}
	}
}

// ------------------------------------------------------------------- C13

// simDamage damages b in place and says how.
func simDamage(r *simrt.Run, l string, b []byte) string {
	if len(b) == 0 {
		return "nothing to damage"
	}
	kind := r.Int(l+"/kind", 6)
	at := r.Pos(l+"/at", len(b))
	n := 1 + r.Int(l+"/len", min(len(b)-at, 64))
	if r.Chance(l+"/long", 1, 8) {
		n = len(b) - at
	}
	x := b[at : at+n]
	switch kind {
	case 0:
		r.Fault("bit flipped")
		b[at] ^= 1 << r.Int(l+"/bit", 8)
	case 1:
		r.Fault("bytes zeroed")
		clear(x)
	case 2:
		r.Fault("bytes erased (FF)")
		for i := range x {
			x[i] = 0xff
		}
	case 3:
		r.Fault("bytes replaced at random")
		p := &simPen{s: uint64(r.Bits(l + "/fill"))}
		copy(x, p.bytes(n))
	case 4:
		r.Fault("bytes from elsewhere in the record")
		from := r.Int(l+"/from", len(b)-n+1)
		copy(x, bytes.Clone(b[from:from+n]))
	case 5:
		r.Fault("value out of range")
		v := []uint16{0, 1, 0xffff, 0x7fff, 0x8000, 0x00ff, 0x0100}[r.Int(l+"/value", 7)]
		if at+2 <= len(b) {
			binary.BigEndian.PutUint16(b[at:], v)
		} else {
			b[at] = byte(v)
		}
	}
	return fmt.Sprintf("fault %d at %d+%d", kind, at, n)
}

// simParts is every elementary file a parsed card reports, and where.
func simParts(f *tachographv1.File) map[string]protoreflect.Message {
	out := map[string]protoreflect.Message{}
	d := f.GetDriverCard().ProtoReflect()
	d.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if n := string(fd.Name()); n != "tachograph" && n != "tachograph_g2" {
			out[n] = v.Message()
			return true
		}
		v.Message().Range(func(ef protoreflect.FieldDescriptor, w protoreflect.Value) bool {
			out[string(fd.Name())+"."+string(ef.Name())] = w.Message()
			return true
		})
		return true
	})
	return out
}

// simPartOf is the part a record is reported as, "" if none.
func simPartOf(f simFileMsg) string {
	switch {
	case f.name == "ICC" || f.name == "IC":
		return strings.ToLower(f.name)
	case strings.HasSuffix(f.name, "?"):
		return ""
	case strings.HasPrefix(f.name, "G1."):
		return "tachograph." + string(simFieldOf(f.name))
	}
	return "tachograph_g2." + string(simFieldOf(f.name))
}

func simC13(r *simrt.Run) {
	m := simDownload(r, "file", 1, 0, 0)
	clean, err, ok := simRead(r, "parse", bytes.Clone(m.data))
	if !ok {
		return
	}
	if err != nil {
		r.Fail("genuine file refused", "a genuine card was not read: %s", simShort(err.Error()))
		return
	}
	want := simParts(clean)
	// records and the file each belongs to
	var owner []int
	for i, f := range m.fs {
		for range f.recs() {
			owner = append(owner, i)
		}
	}
	r.Logf("%v", m)
	n := 16
	if r.Tier == "thorough" {
		n = 64
	}
	for i := 0; i < n && !r.Failed(); i++ {
		k := r.Int("record", len(m.recs))
		if len(m.recs[k].val) == 0 {
			continue
		}
		file := m.fs[owner[k]]
		isSig := m.recs[k].app&1 == 1
		if !isSig && strings.HasSuffix(file.name, "Application_Identification") {
			continue // selects how other files are read
		}
		bad := bytes.Clone(m.data)
		val := bad[m.start(k)+5 : m.ends[k]]
		how := simDamage(r, "damage", val)
		for again := 0; again < 3 && r.Chance("more", 1, 3); again++ {
			how += ", " + simDamage(r, "damage", val)
		}
		f, err, ok := simRead(r, "parse", bad)
		if !ok {
			return
		}
		r.Logf("%s of %s damaged: error=%v", map[bool]string{true: "signature", false: "value"}[isSig], file.name, err != nil)
		if err != nil {
			continue
		}
		r.Nontrivial()
		if f.GetType() != tachographv1.File_DRIVER_CARD {
			r.Fail("file type", "damage to %s (%s) changed the type of the file to %v", file.name, how, f.GetType())
			return
		}
		own := simPartOf(file)
		got := simParts(f)
		for name, w := range want {
			g, ok := got[name]
			if name == own {
				if isSig && ok {
					g, w := simWithoutSig(g.Interface()), simWithoutSig(w.Interface())
					if d := simDiffMsg(name, g.ProtoReflect(), w.ProtoReflect()); d != "" {
						r.Fail("content changed by its signature", "damage to the signature of %s (%s) changed its content: %s", file.name, how, d)
						return
					}
				} else if fd := w.Descriptor().Fields().ByName("signature"); !isSig && ok && fd != nil && !bytes.Equal(g.Get(fd).Bytes(), w.Get(fd).Bytes()) {
					r.Fail("signature changed by its content", "damage to the content of %s (%s) changed its signature", file.name, how)
					return
				}
				continue
			}
			if !ok {
				r.Fail("other file lost", "damage to %s (%s): %s was not reported", file.name, how, name)
				return
			}
			if d := simDiffMsg(name, g, w); d != "" {
				r.Fail("other file changed", "damage to %s (%s) changed what is reported for another file: %s (damaged/undamaged)", file.name, how, d)
				return
			}
		}
		for name := range got {
			if _, ok := want[name]; !ok && name != own {
				r.Fail("other file invented", "damage to %s (%s): %s is reported", file.name, how, name)
				return
			}
		}
	}
}

// ------------------------------------------------------------------- C14

func simC14(r *simrt.Run) {
	m := simDownload(r, "file", 6, 2, 0)
	data := bytes.Clone(m.data)
	damaged := false
	if r.Chance("damaged", 1, 2) {
		// Damage may leave a file that is still read. What is read must be
		// saved as it is, or refused.
		damaged = true
		for i, n := 0, 1+r.Int("damages", 4); i < n; i++ {
			k := r.Int("record", len(m.recs))
			simDamage(r, "damage", data[m.start(k)+5:m.ends[k]])
		}
	}
	if m.kind != "vu" && r.Chance("grown", 1, 4) {
		r.Fault("record grown")
		data = simGrow(r, "grow", m, data)
		damaged = true
	} else if m.kind != "vu" && r.Chance("shortened", 1, 4) {
		data = simShorten(r, m)
		damaged = true
	} else if r.Chance("repeated", 1, 10) {
		// The tool stored a file twice.
		k := r.Int("twice", len(m.recs))
		data = append(data, data[m.start(k):m.ends[k]]...)
		r.Fault("record stored twice")
		damaged = true
	}
	f, err, ok := simRead(r, "parse", bytes.Clone(data))
	if !ok {
		return
	}
	r.Logf("%v damaged=%v: error=%v", m, damaged, err != nil)
	if err != nil {
		if !damaged {
			r.Fail("genuine file refused", "a genuine card was not read: %s", simShort(err.Error()))
		}
		return
	}
	cur := f
	var prev []byte
	for i, n := 0, 2+r.Int("cycles", 3); i < n; i++ {
		var out []byte
		if !r.Try("save", func() { out, err = tachograph.MarshalFile(cur) }) {
			return
		}
		r.Logf("saved: %d bytes, error=%v", len(out), err != nil)
		if err != nil {
			if !damaged {
				r.Fail("genuine file not saved", "a genuine card was not saved: %s", simShort(err.Error()))
			}
			if i > 0 {
				r.Fail("saved once only", "a file that was saved and reloaded cannot be saved again: %s", simShort(err.Error()))
			}
			return
		}
		r.Nontrivial()
		if i > 0 && !bytes.Equal(out, prev) {
			r.Fail("saving again differs", "saving the reloaded file gave other bytes (%d and %d)", len(prev), len(out))
			return
		}
		if f.GetType() == tachographv1.File_RAW_CARD && !bytes.Equal(out, data) {
			r.Fail("raw card changed", "a card kept in raw form was saved as other bytes (%d of %d)", len(out), len(data))
			return
		}
		prev = out
		// on to the disk and back
		next, err, ok := simRead(r, "reload", bytes.Clone(out))
		if !ok {
			return
		}
		if err != nil {
			r.Fail("not reloaded", "what was saved cannot be read: %s", simShort(err.Error()))
			return
		}
		if d := simDiffMsg("file", next.ProtoReflect(), f.ProtoReflect()); d != "" {
			r.Fail("reload differs: "+simFieldClass(d), "the reloaded file differs: %s (reloaded/first)", d)
			return
		}
		cur = next
	}
	if m.kind == "card" && !damaged {
		unmarked := 0
		if class, msg := simCheckCard(r, m.fs, cur, &unmarked); class != "" {
			r.Fail("reload: "+class, "%s", msg)
		}
	}
}

// ------------------------------------------------------------------- C10

// simScribble overwrites every byte field below m and returns how many.
func simScribble(m protoreflect.Message) (n int) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		one := func(v protoreflect.Value) {
			switch {
			case fd.Message() != nil:
				n += simScribble(v.Message())
			case fd.Kind() == protoreflect.BytesKind:
				b := v.Bytes()
				for i := range b[:cap(b)] {
					b[:cap(b)][i] = 0xee
				}
				n += len(b)
			}
		}
		if fd.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				one(v.List().Get(i))
			}
		} else {
			one(v)
		}
		return true
	})
	return n
}

// simClearAll empties every field below m, deepest first.
func simClearAll(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() != nil && fd.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				simClearAll(v.List().Get(i).Message())
			}
		} else if fd.Message() != nil {
			simClearAll(v.Message())
		}
		if fd.IsList() {
			v.List().Truncate(0)
		}
		m.Clear(fd)
		return true
	})
}

// simEdit changes about one field in every `every` below m, as a caller who
// corrects or blanks out parts of a file would.
func simEdit(p *simPen, m protoreflect.Message, every int, n *int) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !m.Has(fd) || fd.IsMap() {
			continue
		}
		hit := p.one(every)
		if hit {
			*n++
		}
		switch {
		case fd.IsList():
			l := m.Mutable(fd).List()
			if hit {
				switch k := p.n(3); {
				case k == 0:
					l.Truncate(p.n(l.Len() + 1))
				case k == 1:
					x := l.Get(p.n(l.Len()))
					if fd.Message() != nil {
						x = protoreflect.ValueOfMessage(proto.Clone(x.Message().Interface()).ProtoReflect())
					}
					l.Append(x)
				case fd.Message() == nil:
					l.Set(p.n(l.Len()), simEdited(p, fd, l.Get(p.n(l.Len()))))
				}
			}
			if fd.Message() != nil {
				for j := 0; j < l.Len(); j++ {
					simEdit(p, l.Get(j).Message(), every, n)
				}
			}
		case fd.Message() != nil:
			if hit && p.one(4) {
				m.Clear(fd)
			} else {
				simEdit(p, m.Mutable(fd).Message(), every, n)
			}
		case hit && p.one(8):
			m.Clear(fd)
		case hit:
			m.Set(fd, simEdited(p, fd, m.Get(fd)))
		}
	}
}

// simEdited is another value of fd.
func simEdited(p *simPen, fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(p.n(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32([]int32{0, 1, int32(p.n(256)), int32(v.Int()) + 1}[p.n(4)])
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64([]int64{0, 1, int64(p.n(256)), v.Int() + 86400}[p.n(4)])
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32([]uint32{0, 1, uint32(p.n(256)), uint32(v.Uint()) + 1}[p.n(4)])
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64([]uint64{0, 1, uint64(p.n(256)), v.Uint() + 1}[p.n(4)])
	case protoreflect.StringKind:
		return protoreflect.ValueOfString([]string{"", "X", "ÅÄÖ", v.String() + "A", "TEST TEST TEST"}[p.n(5)])
	case protoreflect.BytesKind:
		b := bytes.Clone(v.Bytes())
		switch p.n(3) {
		case 0:
			if len(b) > 0 {
				b[p.n(len(b))] ^= 1 << p.n(8)
			}
		case 1:
			b = p.bytes(len(b))
		case 2:
			b = append(b, 0)
		}
		return protoreflect.ValueOfBytes(b)
	}
	return v
}

// simShorten makes some records shorter than they should be.
func simShorten(r *simrt.Run, m *simMedium) []byte {
	r.Fault("record shortened")
	recs := slices.Clone(m.recs)
	for i, n := 0, 1+r.Int("short records", 3); i < n; i++ {
		x := &recs[r.Int("short record", len(recs))]
		keep := len(x.val)
		if r.Chance("very short", 2, 3) {
			keep = min(keep, 24)
		}
		x.val = x.val[:r.Int("short length", keep+1)]
	}
	return simTLV(recs...)
}

func simC10(r *simrt.Run) {
	var all []*simKept
	keep := func(what string, f *tachographv1.File) *simKept {
		k := &simKept{what: what, f: f, want: proto.CloneOf(f)}
		all = append(all, k)
		return k
	}
	check := func(after string) bool {
		for _, k := range all {
			if d := simDiffMsg("file", k.f.ProtoReflect(), k.want.ProtoReflect()); d != "" {
				r.Fail("result changed: "+after, "%s changed when %s: %s (now/before)", k.what, after, d)
				return false
			}
			if k.out != nil && !bytes.Equal(k.out, k.outWant) {
				r.Fail("saved bytes changed: "+after, "the saved bytes of %s changed when %s", k.what, after)
				return false
			}
		}
		return true
	}
	// One buffer is used for all files, as a reader of a directory would.
	var buf []byte
	n := 1 + r.Int("files", 4)
	for i := 0; i < n; i++ {
		m := simDownload(r, "file", 4, 2, 3)
		data := m.data
		if r.Chance("damaged", 1, 3) {
			data = bytes.Clone(data)
			k := r.Int("record", len(m.ends))
			simDamage(r, "damage", data[m.start(k)+min(5, m.ends[k]-m.start(k)-1):m.ends[k]])
		}
		if len(m.recs) > 0 && r.Chance("other lengths", 1, 4) {
			data = simShorten(r, m)
		}
		buf = append(buf[:0], data...)
		slack := cap(buf)
		full := bytes.Clone(buf[:slack])
		f, err, ok := simRead(r, "parse", buf)
		if !ok {
			return
		}
		if !bytes.Equal(buf[:slack], full) {
			r.Fail("input modified", "parsing modified its input")
			return
		}
		r.Logf("%v: error=%v", m, err != nil)
		if err != nil {
			continue
		}
		r.Nontrivial()
		k := keep(fmt.Sprint("result ", i), f)
		for j := range buf[:slack] {
			buf[:slack][j] ^= 0x5a
		}
		r.Fault("input buffer reused")
		if !check("the input buffer was reused") {
			return
		}
		// The same bytes again: another result, nothing shared.
		if r.Chance("twin", 1, 2) {
			g, err, ok := simRead(r, "parse", data)
			if !ok {
				return
			}
			if err != nil || simDiffMsg("file", g.ProtoReflect(), k.want.ProtoReflect()) != "" {
				r.Fail("second reading differs", "the same bytes were read differently the second time")
				return
			}
			if r.Chance("scribble", 2, 3) {
				simScribble(g.ProtoReflect())
				r.Fault("another result overwritten")
			} else {
				simClearAll(g.ProtoReflect())
				r.Fault("another result emptied")
			}
			if !check("another result was overwritten") {
				return
			}
		}
		if r.Chance("edited", 1, 2) {
			// A caller edits a copy and saves that. Whether the edits can be
			// saved is another matter; the copy is the caller's.
			e := proto.CloneOf(f)
			p := &simPen{s: uint64(r.Bits("edit"))}
			edits := 0
			simEdit(p, e.ProtoReflect(), []int{3, 20, 100, 400}[r.Int("edit every", 4)], &edits)
			k := keep(fmt.Sprint("the edited result ", i), e)
			save := func() (out []byte, err error) {
				defer func() {
					if x := recover(); x != nil {
						if l, is := x.(simrt.StepLimit); is {
							r.Fail("hang", "saving an edited message: %v", l)
							simrt.LimitSteps(50_000_000)
						}
						err = fmt.Errorf("panic: %v", x)
					}
				}()
				return tachograph.MarshalFile(e)
			}
			out, err := save()
			r.Logf("%d edits saved: %d bytes, error=%v", edits, len(out), err != nil)
			r.Fault("message edited before saving")
			if !check("an edited message was saved") {
				return
			}
			if err == nil {
				r.Probe("edited message saved")
				k.out, k.outWant = bytes.Clone(out), bytes.Clone(out)
				for j := range out[:cap(out)] {
					out[:cap(out)][j] ^= 0xff
				}
				if !check("the saved bytes of an edited message were overwritten") {
					return
				}
				if again, err := save(); err != nil || !bytes.Equal(again, k.outWant) {
					r.Fail("second saving differs", "saving an edited message twice gave other bytes")
					return
				}
			}
		}
		if r.Chance("save", 3, 4) {
			var out []byte
			if !r.Try("save", func() { out, err = tachograph.MarshalFile(f) }) {
				return
			}
			if !check("it was saved") {
				return
			}
			if err == nil {
				k.out, k.outWant = out, bytes.Clone(out)
				// Overwrite what a second saving returns.
				var twin []byte
				if !r.Try("save", func() { twin, err = tachograph.MarshalFile(f) }) {
					return
				}
				if err != nil || !bytes.Equal(twin, out) {
					r.Fail("second saving differs", "saving twice gave other bytes")
					return
				}
				for j := range twin[:cap(twin)] {
					twin[:cap(twin)][j] ^= 0xff
				}
				r.Fault("saved bytes overwritten")
				if !check("the saved bytes were overwritten") {
					return
				}
				if !r.Try("save", func() { twin, err = tachograph.MarshalFile(f) }) {
					return
				}
				if err != nil || !bytes.Equal(twin, out) {
					r.Fail("second saving differs", "saving again after the first bytes were overwritten gave other bytes")
					return
				}
			}
		}
	}
	// At last every message but one is overwritten.
	if len(all) > 0 {
		last := all[r.Int("left", len(all))]
		for _, k := range all {
			if k != last {
				simScribble(k.f.ProtoReflect())
			}
		}
		all = []*simKept{last}
		check("the other results were overwritten")
	}
}

type simKept struct {
	what         string
	f, want      *tachographv1.File
	out, outWant []byte
}

// ------------------------------------------------------------------- C11

// Bounds on work and memory: far above what any input has needed (DESIGN.md),
// and still linear in the input.
var simBounds = map[string][4]uint64{
	"parse":         {30_000, 200, 1 << 20, 250},
	"save":          {20_000, 50, 3 << 20, 250},
	"verify":        {100_000, 1, 6 << 20, 2500},
	"save verified": {20_000, 50, 3 << 20, 250},
}

func simWreck(r *simrt.Run, l string, m *simMedium, data []byte) []byte {
	at := func(l string) int { return r.Pos(l, len(data)) }
	if len(data) == 0 {
		return data
	}
	switch r.Int(l, 13) {
	case 12:
		// A record, count and all, grown to the edge of what its length or
		// count field can say.
		if len(data) != len(m.data) {
			return data // no longer where the records were
		}
		r.Fault("record grown")
		return simGrow(r, l+"/grow", m, data)
	case 11:
		if len(data) < 100_000 && r.Chance(l+"/many", 1, 4) {
			r.Fault("file stored many times over")
			x := bytes.Clone(data)
			n := 1 + r.Int(l+"/times", 40)
			for i := 0; i < n && len(data) < 1<<20; i++ {
				data = append(data, x...)
			}
		}
	case 0:
		r.Fault("file cut short")
		return data[:at(l+"/cut")]
	case 1, 2:
		i := at(l + "/at")
		n := 1 + r.Int(l+"/len", min(len(data)-i, 600))
		simDamage(r, l+"/damage", data[i:i+n])
	case 3:
		r.Fault("part of the file lost")
		i := at(l + "/at")
		n := 1 + r.Int(l+"/len", min(len(data)-i, 4096))
		return slices.Delete(data, i, i+n)
	case 4:
		r.Fault("part of the file duplicated")
		i := at(l + "/at")
		n := 1 + r.Int(l+"/len", min(len(data)-i, 4096))
		return slices.Insert(data, i+n, bytes.Clone(data[i:i+n])...)
	case 5:
		r.Fault("two files spliced")
		o := simDownload(r, l+"/other", 3, 1, 3)
		return append(data[:at(l+"/at")], o.data[r.Pos(l+"/from", len(o.data)):]...)
	case 6:
		r.Fault("sectors swapped")
		const sector = 512
		k := len(data) / sector
		if k > 1 {
			a, b := r.Int(l+"/a", k)*sector, r.Int(l+"/b", k)*sector
			x := bytes.Clone(data[a : a+sector])
			copy(data[a:], data[b:b+sector])
			copy(data[b:], x)
		}
	case 7:
		r.Fault("sector zeroed")
		i := at(l+"/at") &^ 511
		clear(data[i:min(i+512, len(data))])
	case 8, 9, 10:
		// A length, count or pointer lies.
		r.Fault("length, count or pointer lies")
		k := r.Int(l+"/record", len(m.ends))
		i := m.start(k)
		if m.kind != "vu" {
			i += 3
			if r.Chance(l+"/inside", 2, 3) {
				i += 2 + r.Pos(l+"/field", min(64, max(1, m.ends[k]-i-2)))
			}
		} else {
			i += 2 + r.Pos(l+"/field", max(1, m.ends[k]-i-2))
		}
		v := []uint16{0xffff, 0, 1, 0x7fff, 0x8000, 0xff, 0x100, 0xfffe}[r.Int(l+"/value", 8)]
		if r.Chance(l+"/free", 1, 3) {
			v = uint16(r.Int(l+"/free value", 1<<16))
		}
		if i+2 <= len(data) {
			if r.Chance(l+"/byte", 1, 4) {
				data[i] = byte(v)
			} else {
				binary.BigEndian.PutUint16(data[i:], v)
			}
		}
	}
	return data
}

// simGrow makes a record of m much longer than any card or vehicle unit would,
// with length and count fields to match.
func simGrow(r *simrt.Run, l string, m *simMedium, data []byte) []byte {
	edges := []int{0xffff, 0xfffe, 0xfffd, 0xfffc, 0xfffb, 0xfffa, 0x8001, 0x8000, 0x7fff, 0x101, 0x100, 0xff}
	want := edges[r.Int(l+"/edge", len(edges))]
	if r.Chance(l+"/free", 1, 3) {
		want = r.Int(l+"/size", 1<<16)
	}
	p := &simPen{s: uint64(r.Bits(l + "/fill"))}
	k := r.Int(l+"/record", len(m.ends))
	if k2 := r.Int(l+"/other", len(m.ends)); m.ends[k2]-m.start(k2) > m.ends[k]-m.start(k) {
		k = k2 // rather the files of many records
	}
	i, end := m.start(k), m.ends[k]
	if m.kind != "vu" {
		val := data[i+5 : end]
		fill := make([]byte, max(0, want-len(val)))
		switch p.n(3) {
		case 0:
			fill = p.bytes(len(fill))
		case 1:
			for n := range fill {
				if len(val) > 0 {
					fill[n] = val[n%len(val)]
				}
			}
		}
		val = append(bytes.Clone(val), fill...)[:want]
		binary.BigEndian.PutUint16(data[i+3:], uint16(want))
		return slices.Replace(data, i+5, end, val...)
	}
	// The record arrays of a second-generation transfer.
	type array struct{ at, size, n int }
	var as []array
	for at := i + 2; at+5 <= end; {
		a := array{at, int(binary.BigEndian.Uint16(data[at+1:])), int(binary.BigEndian.Uint16(data[at+3:]))}
		if at+5+a.size*a.n > end {
			return data // first generation, or damaged
		}
		as = append(as, a)
		at += 5 + a.size*a.n
	}
	if len(as) == 0 {
		return data
	}
	a := as[r.Int(l+"/array", len(as))]
	if a.size == 0 {
		return data
	}
	old := data[a.at+5 : a.at+5+a.size*a.n]
	if a.n > 0 && p.one(4) {
		// records of another size
		binary.BigEndian.PutUint16(data[a.at+1:], uint16(want))
		val := append(bytes.Clone(old), make([]byte, max(0, want*a.n-len(old)))...)
		if want*a.n > 1<<20 {
			return data
		}
		return slices.Replace(data, a.at+5, a.at+5+len(old), val[:want*a.n]...)
	}
	if want*a.size > 1<<20 {
		want = min(want, 1<<20/a.size)
	}
	val := make([]byte, want*a.size)
	if len(old) > 0 {
		for n := copy(val, old); n < len(val); {
			n += copy(val[n:], old)
		}
	}
	binary.BigEndian.PutUint16(data[a.at+3:], uint16(want))
	return slices.Replace(data, a.at+5, a.at+5+len(old), val...)
}

func simC11(r *simrt.Run) {
	o := &simNetFaults{num: 6, delays: true}
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan { return simServe(r, "net", o, req, q) })
	simWarm()
	m := simDownload(r, "file", 4, 1, 4)
	n := 12
	for i := 0; i < n && !r.Failed(); i++ {
		data := bytes.Clone(m.data)
		if r.Chance("monotonous", 1, 24) {
			// The same few bytes over and over: as many records, arrays or
			// transfers as a file of that length can hold.
			p := &simPen{s: uint64(r.Bits("tune"))}
			data = bytes.Clone([][]byte{{}, {0x76, 6}, {0x76, 6}, {0, 2, 0, 0, 1, 0}, {0x76, 0x00, 2, 2}, {0x76, 0x21}, {0x76, 0x33}, {0x76, 0x04}}[r.Int("prelude", 8)])
			tags := [][]byte{{0, 2, 0}, {5, 1, 0}, {5, 1, 1}, {0xc1, 0, 2}, {5, 4, 3}, p.bytes(3)}
			var tune []byte
			switch r.Int("theme", 5) {
			case 0:
				tune = make([]byte, 1+p.n(8))
			case 1:
				tune = p.bytes(1 + p.n(12))
			case 2, 3:
				k := []int{0, 0, 1, 2, 7}[p.n(5)]
				tune = append(append(bytes.Clone(tags[p.n(len(tags))]), 0, byte(k)), p.bytes(k)...)
			case 4:
				tune = []byte{0x76, []byte{0, 1, 2, 4, 6, 0x11, 0x24, 0x35}[p.n(8)], 0, 0}[:2+2*p.n(2)]
			}
			want := []int{300, 3000, 30_000, 200_000}[r.Weighted("duration", 2, 3, 4, 1)]
			for len(data) < want {
				data = append(data, tune...)
			}
			r.Fault("the same bytes over and over")
		} else if r.Chance("nonsense", 1, 16) {
			p := &simPen{s: uint64(r.Bits("noise"))}
			data = append([][]byte{{0x76}, {0, 2}, {0x76, 0x22}, {0, 2, 0, 0, 0}, {}, {0x76, 0x31}}[r.Int("head", 6)], p.bytes(p.n(3000))...)
			r.Fault("noise")
		} else {
			for k, c := 0, 1+r.Weighted("damages", 4, 3, 2, 1, 1); k < c && len(data) > 0; k++ {
				data = simWreck(r, "wreck", m, data)
			}
		}
		size := uint64(len(data))
		var f *tachographv1.File
		var err error
		bounded := func(what string, call func()) bool {
			b := simBounds[what]
			maxSteps, maxMem := b[0]+b[1]*size, b[2]+b[3]*size
			simrt.LimitSteps(4 * maxSteps)
			ok := false
			steps, mem := simrt.Measure(func() { ok = r.Try(what, call) })
			simrt.LimitSteps(50_000_000)
			if !ok {
				return false
			}
			if steps > maxSteps {
				r.Fail("work: "+what, "%s took %d steps for %d bytes", what, steps, size)
			}
			if mem > maxMem {
				r.Fail("memory: "+what, "%s allocated %d bytes for %d bytes of input", what, mem, size)
			}
			if os.Getenv("SIM_RATIOS") != "" {
				if g, e := os.OpenFile("/tmp/ratios", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600); e == nil {
					fmt.Fprintln(g, what, steps, mem, size)
					g.Close()
				}
			}
			return !r.Failed()
		}
		if !bounded("parse", func() { f, err = tachograph.UnmarshalFile(data) }) {
			return
		}
		if err == nil && f == nil {
			r.Fail("nothing", "neither a file nor an error")
			return
		}
		r.Logf("%v, damaged to %d bytes: error=%v", m, len(data), err != nil)
		if err != nil {
			r.Probe("damaged file refused")
			continue
		}
		r.Nontrivial()
		r.Probe("damaged file read")
		// What is reported is a message that can be handed on.
		if _, err := proto.Marshal(f); err != nil {
			r.Fail("message cannot be encoded", "the file that was read cannot be encoded: %s", simShort(err.Error()))
			return
		}
		var out []byte
		if !bounded("save", func() { out, err = tachograph.MarshalFile(f) }) {
			return
		}
		r.Logf("saved: %d bytes, error=%v", len(out), err != nil)
		ctx := context.Background()
		var src *simSource
		if r.Chance("own source", 1, 2) {
			src = &simSource{r: r, l: "src", faulty: r.Chance("faulty", 1, 2), num: 2}
		} else {
			o.faultless = !r.Chance("faulty", 1, 4)
		}
		opts := simCaller{r: r, net: net, src: src}
		if src != nil {
			src.reset()
		}
		var verr error
		if !bounded("verify", func() {
			if src != nil {
				verr = opts.options().VerifyFile(ctx, f)
			} else {
				verr = tachograph.VerifyFile(ctx, f)
			}
		}) {
			return
		}
		r.Logf("verified: error=%v", verr != nil)
		if !bounded("save verified", func() { _, err = tachograph.MarshalFile(f) }) {
			return
		}
	}
	runtime.KeepAlive(net)
}

var simWarmed bool

// simWarm has the library read its embedded index, which it does once.
func simWarm() {
	if !simWarmed {
		simWarmed = true
		c := tachograph.DefaultCertificateResolver()
		ctx, cancel := context.WithCancel(context.Background())
		cancel() // no request is made
		c.GetRootCertificate(ctx)
		c.GetRsaCertificate(ctx, "0")
	}
}
