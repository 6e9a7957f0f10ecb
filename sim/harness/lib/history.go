package tachograph_test

import (
	"bytes"
	"fmt"
	"simrt"
	"strings"

	"github.com/way-platform/tachograph-go"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// C23: what is read from a card is what was recorded on it.

func init() {
	simScenarios["C23"] = simrt.Scenario{Run: simHistory}
}

// simFieldOf is where a parsed card keeps an elementary file.
func simFieldOf(name string) protoreflect.Name {
	n := strings.ToLower(name[strings.IndexByte(name, '.')+1:])
	switch n {
	case "vehicleunits_used":
		n = "vehicle_units_used"
	case "cardma_certificate":
		n = "card_ma_certificate"
	case "cardsigncertificate":
		n = "card_sign_certificate"
	}
	return protoreflect.Name(n)
}

// simDFOf is the parsed application of a generation, or nil.
func simDFOf(f *tachographv1.File, gen int) protoreflect.Message {
	d := f.GetDriverCard()
	if gen == 1 && d.HasTachograph() {
		return d.GetTachograph().ProtoReflect()
	}
	if gen == 2 && d.HasTachographG2() {
		return d.GetTachographG2().ProtoReflect()
	}
	return nil
}

// simCertRaw is the bytes of the one certificate in m.
func simCertRaw(m protoreflect.Message) []byte {
	fd := m.Descriptor().Fields().Get(0)
	if fd.Message() == nil || !m.Has(fd) {
		return nil
	}
	c := m.Get(fd).Message()
	return c.Get(c.Descriptor().Fields().ByName("raw_data")).Bytes()
}

// simCheckCard compares a parsed card with what the card holds.
// It counts the place records whose validity mark is missing in *unmarked.
func simCheckCard(r *simrt.Run, fs []simFileMsg, f *tachographv1.File, unmarked *int) (string, string) {
	if f.GetType() != tachographv1.File_DRIVER_CARD || !f.HasDriverCard() {
		return "not a driver card", fmt.Sprint("the download of a driver card was read as ", f.GetType())
	}
	if !f.GetDriverCard().HasIcc() || !f.GetDriverCard().HasIc() {
		return "chip files lost", "the ICC or IC file of the card was not reported"
	}
	for _, x := range fs {
		var got proto.Message
		switch x.name {
		case "ICC":
			got = f.GetDriverCard().GetIcc()
		case "IC":
			got = f.GetDriverCard().GetIc()
		default:
			continue
		}
		if d := simDiffMsg(x.name, got.ProtoReflect(), x.want.ProtoReflect()); d != "" {
			return "content differs: " + simFieldClass(d), d + " (reported/recorded)"
		}
	}
	seen := map[string]bool{}
	dfs := map[int]bool{}
	for _, x := range fs {
		gen := 0
		switch {
		case strings.HasPrefix(x.name, "G1."):
			gen = 1
		case strings.HasPrefix(x.name, "G2."):
			gen = 2
		default:
			continue
		}
		if x.name[3:] == "?" {
			continue
		}
		dfs[gen] = true
		df := simDFOf(f, gen)
		if df == nil {
			return "application lost", fmt.Sprintf("the generation %d application was not reported", gen)
		}
		fd := df.Descriptor().Fields().ByName(simFieldOf(x.name))
		if fd == nil {
			panic("no field for " + x.name)
		}
		seen[fmt.Sprint(gen, fd.Name())] = true
		if !df.Has(fd) {
			return "file lost", x.name + " was not reported"
		}
		got := df.Get(fd).Message()
		if x.want == nil {
			if raw := simCertRaw(got); !bytes.Equal(raw, x.val) {
				return "certificate differs", fmt.Sprintf("%s: %d bytes reported, %d on the card", x.name, len(raw), len(x.val))
			}
			continue
		}
		want := x.want
		if c, ok := got.Interface().(*cardv1.ControlActivityData); ok && c.GetControlCardNumber().HasGeneration() {
			// The record does not tell the generation of the control card.
			c = proto.CloneOf(c)
			c.GetControlCardNumber().SetGeneration(ddv1.Generation_GENERATION_1)
			got = c.ProtoReflect()
		}
		if strings.HasSuffix(x.name, ".Places") {
			want = simUnmarkPlaces(got.Interface(), want, unmarked)
		}
		if d := simDiffMsg(x.name, got, want.ProtoReflect()); d != "" {
			return "content differs: " + simFieldClass(d), d + " (reported/recorded)"
		}
	}
	for gen := 1; gen <= 2; gen++ {
		df := simDFOf(f, gen)
		if df == nil {
			continue
		}
		if !dfs[gen] {
			return "application invented", fmt.Sprintf("a generation %d application was reported", gen)
		}
		msg := ""
		df.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
			if !seen[fmt.Sprint(gen, fd.Name())] {
				msg = fmt.Sprintf("G%d.%s was reported and is not on the card", gen, fd.Name())
			}
			return true
		})
		if msg != "" {
			return "file invented", msg
		}
	}
	return "", ""
}

// simUnmarkPlaces is want without the validity marks that got lacks. That they
// are missing is a known finding, kept apart so that it hides nothing else.
func simUnmarkPlaces(got, want proto.Message, unmarked *int) proto.Message {
	want = proto.Clone(want)
	switch g := got.(type) {
	case *cardv1.Places:
		for i, w := range want.(*cardv1.Places).GetRecords() {
			if i < len(g.GetRecords()) && w.HasValid() && !g.GetRecords()[i].HasValid() {
				w.ClearValid()
				*unmarked++
			}
		}
	case *cardv1.PlacesG2:
		for i, w := range want.(*cardv1.PlacesG2).GetRecords() {
			if i < len(g.GetRecords()) && w.HasValid() && !g.GetRecords()[i].HasValid() {
				w.ClearValid()
				*unmarked++
			}
		}
	}
	return want
}

// simFieldClass is the first word of a difference, without indices.
func simFieldClass(d string) string {
	d, _, _ = strings.Cut(d, " ")
	var b strings.Builder
	in := false
	for _, c := range d {
		switch {
		case c == '[':
			in = true
		case c == ']':
			in = false
		case !in:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// simShuffle is the order in which a tool happens to read the files; the two
// files of the chip come first.
func (c *simCardLife) shuffle(fs []simFileMsg) []simFileMsg {
	out := append([]simFileMsg{}, fs...)
	for i := len(out) - 1; i > 2; i-- {
		j := 2 + c.p.n(i-1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// unread adds files of a second-version card that the library does not report.
func (c *simCardLife) unread(fs []simFileMsg) []simFileMsg {
	for _, fid := range []uint16{0x0526, 0x0527, 0x0528, 0x0529, 0x0530, 0x0540} {
		if c.p.one(3) {
			continue
		}
		f := simFileMsg{simRec: simRec{fid, 2, c.p.bytes(1 + c.p.n(60))}, name: "G2.?"}
		f.sig = c.sig(2, f.val)
		fs = append(fs, f)
	}
	return fs
}

// simIssue issues a card for a run.
func simIssue(r *simrt.Run, l string) *simCardLife {
	gens := []int{3, 1, 2}[r.Weighted(l+"/gens", 4, 2, 2)]
	c := simNewCard(r, l, gens, r.Chance(l+"/small", 3, 4))
	c.noSig = r.Chance(l+"/nosig", 1, 8)
	return c
}

// download is the card as a tool reads it today.
func (c *simCardLife) download(l string) []simFileMsg {
	fs := c.files()
	if c.r.Chance(l+"/unread", 1, 3) {
		for _, d := range c.dfs {
			if d.v2 {
				fs = c.unread(fs)
			}
		}
	}
	if c.r.Chance(l+"/order", 1, 3) {
		fs = c.shuffle(fs)
	}
	return fs
}

func (c *simCardLife) days() (n int) {
	for _, d := range c.dfs {
		n += len(d.act.days)
	}
	return n
}

func simHistory(r *simrt.Run) {
	c := simIssue(r, "card")
	n, unmarked := 1+r.Int("downloads", 4), 0
	for i := 0; i < n && !r.Failed(); i++ {
		l := fmt.Sprint("life", i)
		c.live(l, r.Int(l+"/sessions", 14), 1+r.Int(l+"/changes", 40))
		fs := c.download(l)
		data := simTLV(simJoin(fs)...)
		var f *tachographv1.File
		var err error
		if !r.Try("parse", func() { f, err = tachograph.UnmarshalFile(data) }) {
			return
		}
		r.Logf("download %d: %d bytes, %d commands, %d days, power lost %d times, err %v", i, len(data), c.cmds, c.days(), c.lost, err)
		if err != nil {
			r.Fail("genuine card refused", "a genuine card was not read: %s", simShort(err.Error()))
			return
		}
		if class, msg := simCheckCard(r, fs, f, &unmarked); class != "" {
			r.Fail(class, "%s", msg)
			return
		}
		simrt.Count("cards read", 1)
		simrt.Count("days compared", uint64(c.days()))
		if c.lost > 0 {
			r.Nontrivial()
			r.Probe("read after a power loss")
		}
		for _, d := range c.dfs {
			if d.act.newest < d.act.oldest {
				r.Probe("activity storage wrapped")
				r.Nontrivial()
			}
			if d.vehicles.used > d.vehicles.n {
				r.Probe("vehicle records overwritten")
			}
		}
	}
	if unmarked > 0 && !r.Failed() {
		r.Fail("place records not marked valid", "%d place records were read and not marked valid", unmarked)
	}
}

var _ = ddv1.NationNumeric_SWEDEN
