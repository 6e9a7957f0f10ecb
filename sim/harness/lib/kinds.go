package tachograph_test

import (
	"bytes"
	"context"
	"encoding/binary"
	"net/http"
	"simrt"
	"slices"
	"strings"

	"github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// C25: every kind of download is taken for what it is.

func init() { simScenarios["C25"] = simrt.Scenario{Run: simC25} }

// The files of the cards other than driver cards (Appendix 2, TCS_155 to
// TCS_167): those of the first generation's application and of the second's.
// Files with a signature are marked by a negative number.
var simKinds = map[string][2][]int{
	"workshop": {
		{-0x0501, 0xc100, 0xc108, -0x0520, 0x0509, -0x050a, -0x050b, -0x0502, -0x0503, -0x0504, -0x0505, -0x0506, -0x0507, -0x0508, -0x0522},
		{-0x0501, 0xc100, 0xc101, 0xc108, 0xc109, -0x0520, 0x0509, -0x050a, -0x050b, -0x0502, -0x0503, -0x0504, -0x0505, -0x0506, -0x0507, -0x0508, -0x0522, -0x0523, -0x0524},
	},
	"control": {
		{-0x0501, 0xc100, 0xc108, -0x0520, -0x050c},
		{-0x0501, 0xc100, 0xc108, 0xc109, -0x0520, -0x050c},
	},
	"company": {
		{-0x0501, 0xc100, 0xc108, -0x0520, -0x050d},
		{-0x0501, 0xc100, 0xc108, 0xc109, -0x0520, -0x050d},
	},
}

// Files of the second version of the second generation.
var simKindsV2 = map[string][]int{
	"workshop": {-0x0525, -0x0526, -0x0527, -0x0528, -0x0529, -0x0530, -0x0531, 0x0540},
	"control":  {-0x0525, 0x0540},
	"company":  {-0x0525, 0x0540},
}

// Only cards of the kind have these files.
var simOwnFiles = []uint16{0x0509, 0x050a, 0x050b, 0x050c, 0x050d, 0x0531}

// simOtherCard draws the download of a card that is no driver card.
func simOtherCard(r *simrt.Run, l string) (string, []simRec) {
	kind := []string{"workshop", "control", "company"}[r.Int(l+"/kind", 3)]
	gens := 1 + r.Int(l+"/generations", 3) // 1: first, 2: second, 3: both
	v2 := gens > 1 && r.Chance(l+"/second version", 1, 2)
	p := &simPen{s: uint64(r.Bits(l + "/content"))}
	recs := []simRec{{0x0002, 0, p.bytes(25)}, {0x0005, 0, p.bytes(8)}}
	if p.one(4) {
		recs = append(recs, simRec{0x2f00, 0, p.bytes(20 + p.n(40))})
	}
	if gens > 1 && p.one(4) {
		recs = append(recs, simRec{0x2f01, 0, p.bytes(29)}, simRec{0x0006, 0, p.bytes(3)})
	}
	for g := 0; g < 2; g++ {
		if gens&(1<<g) == 0 {
			continue
		}
		list := slices.Clone(simKinds[kind][g])
		if g == 1 && v2 {
			list = append(list, simKindsV2[kind]...)
		}
		if r.Chance(l+"/shuffled", 1, 4) {
			p.shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		}
		for _, x := range list {
			fid, signed := uint16(x), false
			if x < 0 {
				fid, signed = uint16(-x), true
			}
			n := p.n(300)
			switch {
			case fid == 0x0501 && g == 0:
				n = 5 + p.n(6)
			case fid == 0x0501:
				n = 5 + p.n(16)
			case fid&0xff00 == 0xc100 && g == 0:
				n = 194
			case fid&0xff00 == 0xc100:
				n = 204 + p.n(138)
			case p.one(12):
				n = p.n(24000)
			}
			rec := simRec{fid, byte(2 * g), p.bytes(n)}
			if fid == 0x0501 {
				// the type of the card and the structure version
				copy(rec.val, []byte{map[string]byte{"workshop": 2, "control": 3, "company": 4}[kind], byte(g), 0})
			}
			recs = append(recs, rec)
			if signed {
				recs = append(recs, simRec{fid, rec.app | 1, p.bytes(128 - 64*g)})
			}
		}
	}
	return kind, recs
}

func simC25(r *simrt.Run) {
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan {
		return simServe(r, "net", &simNetFaults{num: 4}, req, q)
	})
	n := 1 + r.Int("downloads", 4)
	for i := 0; i < n && !r.Failed(); i++ {
		switch r.Weighted("what", 6, 3, 2, 2) {
		case 0:
			kind, recs := simOtherCard(r, "other")
			want := true
			if r.Chance("interrupted", 1, 3) {
				// The card was withdrawn, or some files could not be read.
				r.Fault("download interrupted")
				if r.Chance("withdrawn", 1, 2) {
					recs = recs[:2+r.Int("files", len(recs)-1)]
				} else {
					p := &simPen{s: uint64(r.Bits("unread"))}
					recs = slices.DeleteFunc(recs, func(x simRec) bool { return x.fid != 2 && p.one(3) })
				}
				want = slices.ContainsFunc(recs, func(x simRec) bool { return x.app&1 == 0 && slices.Contains(simOwnFiles, x.fid) })
			}
			data := simTLV(recs...)
			f, err, ok := simRead(r, "read", bytes.Clone(data))
			if !ok {
				return
			}
			r.Logf("%s card, %d records: %v error=%v", kind, len(recs), f.GetType(), err != nil)
			if !want {
				// What was read of it could be of a driver card.
				r.Probe("nothing tells the card from a driver card")
				continue
			}
			r.Nontrivial()
			if err != nil {
				r.Fail(kind+" card refused", "the download of a %s card was not read: %s", kind, simShort(err.Error()))
				return
			}
			if f.GetType() != tachographv1.File_RAW_CARD || !f.HasRawCard() || f.HasDriverCard() || f.HasVehicleUnit() {
				r.Fail(kind+" card reported as another", "the download of a %s card is reported as %v", kind, f.GetType())
				return
			}
			got := f.GetRawCard().GetRecords()
			if len(got) != len(recs) {
				r.Fail("records", "%d records of a %s card reported, the download has %d", len(got), kind, len(recs))
				return
			}
			for k, x := range got {
				w := recs[k]
				if int(x.GetTag()) != int(w.fid)<<8|int(w.app) || int(x.GetLength()) != len(w.val) || !bytes.Equal(x.GetValue(), w.val) {
					r.Fail("record differs", "record %d of a %s card: tag %06x, %d bytes reported, %04x%02x, %d bytes downloaded", k, kind, x.GetTag(), x.GetLength(), w.fid, w.app, len(w.val))
					return
				}
				if g, s := x.GetGeneration().Number() == 2, strings.HasPrefix(x.GetContentType().String(), "SIGNATURE"); g != (w.app&2 != 0) || s != (w.app&1 != 0) {
					r.Fail("record mislabelled", "record %d of a %s card (%04x%02x) is labelled %v, %v", k, kind, w.fid, w.app, x.GetGeneration(), x.GetContentType())
					return
				}
			}
			var out []byte
			if !r.Try("save", func() { out, err = tachograph.MarshalFile(f) }) {
				return
			}
			if err != nil || !bytes.Equal(out, data) {
				r.Fail("not saved as it was", "a %s card was saved as %d bytes (error %v), read from %d", kind, len(out), err, len(data))
				return
			}
			want2 := net.Len()
			r.Try("verify", func() { err = tachograph.VerifyFile(context.Background(), f) })
			if net.Len() != want2 {
				r.Probe("a raw card's verification asked the network")
			}
		case 1:
			c := simIssue(r, "driver")
			if r.Chance("used", 1, 2) {
				c.live("driver", 1+r.Int("sessions", 3), 1+r.Int("changes", 8))
			}
			fs := c.download("driver")
			if r.Chance("interrupted", 1, 3) {
				r.Fault("download interrupted")
				fs = fs[:2+r.Int("files", len(fs)-1)]
			}
			f, err, ok := simRead(r, "read", simTLV(simJoin(fs)...))
			if !ok {
				return
			}
			r.Logf("driver card, %d files: %v error=%v", len(fs), f.GetType(), err != nil)
			if err != nil {
				r.Fail("driver card refused", "the download of a driver card was not read: %s", simShort(err.Error()))
			} else if f.GetType() != tachographv1.File_DRIVER_CARD || !f.HasDriverCard() || f.HasRawCard() || f.HasVehicleUnit() {
				r.Fail("driver card reported as another", "the download of a driver card is reported as %v", f.GetType())
			}
		case 2:
			v := simNewVU(r, "vu")
			for k, days := 0, r.Int("days", 3); k < days; k++ {
				v.day("vu")
			}
			ts := v.download("vu")
			f, err, ok := simRead(r, "read", simVUFile(ts))
			if !ok {
				return
			}
			r.Logf("vehicle unit, %d transfers: %v error=%v", len(ts), f.GetType(), err != nil)
			if len(ts) == 0 {
				continue
			}
			if err != nil {
				r.Fail("vehicle unit refused", "a vehicle unit download was not read: %s", simShort(err.Error()))
			} else if f.GetType() != tachographv1.File_VEHICLE_UNIT || !f.HasVehicleUnit() || f.HasDriverCard() || f.HasRawCard() {
				r.Fail("vehicle unit reported as another", "a vehicle unit download is reported as %v", f.GetType())
			}
		case 3:
			// The start of the file was lost: no kind of download.
			m := simDownload(r, "file", 2, 2, 2)
			data := m.data[r.Pos("lost", len(m.data)):]
			r.Fault("start of the file lost")
			if r.Chance("other file", 1, 4) {
				p := &simPen{s: uint64(r.Bits("other file"))}
				data = p.bytes(p.n(400))
			}
			if len(data) >= 2 && (data[0] == 0x76 || binary.BigEndian.Uint16(data) == 2) {
				continue
			}
			f, err, ok := simRead(r, "read", data)
			if !ok {
				return
			}
			r.Logf("%d bytes of no kind: error=%v", len(data), err != nil)
			if err == nil {
				r.Fail("nonsense accepted", "%d bytes that do not start as any download are reported as %v", len(data), f.GetType())
			}
		}
	}
}
