package tachograph_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"simrt"
	"slices"
	"strings"

	"github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/dd"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// C26: two cards that have lived the same life, in the hands of different
// people, in different vehicles, at different times and places, are
// anonymised. Nobody may tell them apart afterwards.

func init() { simScenarios["C26"] = simrt.Scenario{Run: simC26} }

// simTwin redraws whatever of a record would tell who, when or where.
func simTwin(p *simPen, f simRec) simRec {
	v := bytes.Clone(f.val)
	f.val = v
	text := func(at, n int) {
		if !slices.ContainsFunc(simWords, func(w simWord) bool { return w.cp == v[at] }) {
			return // never written, or damaged
		}
		b, _ := simText(p.word(), n-1)
		copy(v[at:at+n], b)
	}
	when := func(at int) {
		if t := binary.BigEndian.Uint32(v[at:]); t != 0 && t != 0xffffffff {
			binary.BigEndian.PutUint32(v[at:], uint32(1+p.n(0xfffffffe)))
		}
	}
	odo := func(at, step int) {
		o := int(v[at])<<16 | int(v[at+1])<<8 | int(v[at+2])
		if o <= simOdoMax {
			copy(v[at:], simU24(o/step*step+p.n(step)))
		}
	}
	if f.app&1 == 1 && (f.fid == 0x0520 || f.fid == 0x0506 || f.fid == 0x0505 && f.app == 1) {
		copy(v, p.bytes(len(v)))
		return f
	}
	switch {
	case f.fid == 0x0520 && len(v) == 143:
		for i := range v[1:17] {
			v[1+i] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[p.n(36)]
		}
		text(17, 36)
		when(53)
		when(57)
		when(61)
		text(65, 36)
		text(101, 36)
		d, _ := simDate(p.in(1930, 2010), p.in(1, 12), p.in(1, 28))
		copy(v[137:], d)
	case f.fid == 0x0505 && f.app == 0 && len(v) >= 2:
		for at := 2; at+31 <= len(v); at += 31 {
			odo(at, 1000)
			odo(at+3, 1000)
			when(at + 6)
			when(at + 10)
			text(at+15, 14)
		}
	case f.fid == 0x0506 && f.app == 0:
		for at := 1; at+10 <= len(v); at += 10 {
			when(at)
			v[at+5], v[at+6] = byte(p.n(256)), byte(p.n(256))
			odo(at+7, 100)
		}
	case f.fid == 0x0506 && f.app == 2:
		for at := 2; at+21 <= len(v); at += 21 {
			when(at)
			v[at+5], v[at+6] = byte(p.n(256)), byte(p.n(256))
			odo(at+7, 100)
			when(at + 10)
			copy(v[at+15:at+21], p.bytes(6))
		}
	}
	return f
}

// simAnon is a card of which everything is anonymised that can be.
func simAnon(f *tachographv1.File) *tachographv1.File {
	out := proto.CloneOf(f)
	c, d := f.GetDriverCard(), out.GetDriverCard()
	if t, u := c.GetTachograph(), d.GetTachograph(); t != nil {
		u.SetIdentification(card.AnonymizeIdentification(t.GetIdentification()))
		u.SetVehiclesUsed(card.AnonymizeVehiclesUsed(t.GetVehiclesUsed()))
		u.SetPlaces(card.AnonymizePlaces(t.GetPlaces()))
	}
	if t, u := c.GetTachographG2(), d.GetTachographG2(); t != nil {
		u.SetIdentification(card.AnonymizeIdentification(t.GetIdentification()))
		u.SetPlaces(card.AnonymizePlacesG2(t.GetPlaces()))
	}
	return out
}

// simAnonKept checks that an anonymised card x is still the card f in what
// identifies nobody.
func simAnonKept(f, x *tachographv1.File) string {
	ident := func(gen string, f, x *cardv1.Identification) string {
		switch {
		case (f == nil) != (x == nil) || (f.GetCard() == nil) != (x.GetCard() == nil) || (f.GetDriverCardHolder() == nil) != (x.GetDriverCardHolder() == nil):
			return gen + " identification or a part of it appeared or is gone"
		case f.GetCardType() != x.GetCardType():
			return gen + " card type"
		case f.GetCard().GetCardIssuingMemberState() != x.GetCard().GetCardIssuingMemberState():
			return gen + " issuing member state"
		case f.GetDriverCardHolder().GetCardHolderPreferredLanguage().GetValue() != x.GetDriverCardHolder().GetCardHolderPreferredLanguage().GetValue():
			return gen + " preferred language"
		case f.GetCard().GetDriverIdentification() != nil && len(x.GetCard().GetDriverIdentification().GetDriverIdentificationNumber().GetValue()) != 14:
			return gen + " identification number is not one"
		}
		return ""
	}
	place := func(gen string, i, n int, ft, xt ddv1.EntryTypeDailyWorkPeriod, fu, xu, fo, xo int32) string {
		switch {
		case ft != xt || fu != xu:
			return fmt.Sprintf("%s entry type of place %d of %d", gen, i, n)
		case fo/100*100 != xo:
			return fmt.Sprintf("%s odometer of place %d of %d: %d became %d", gen, i, n, fo, xo)
		}
		return ""
	}
	a, b := f.GetDriverCard(), x.GetDriverCard()
	if s := ident("first-generation", a.GetTachograph().GetIdentification(), b.GetTachograph().GetIdentification()); s != "" {
		return s
	}
	if s := ident("second-generation", a.GetTachographG2().GetIdentification(), b.GetTachographG2().GetIdentification()); s != "" {
		return s
	}
	vs, ws := a.GetTachograph().GetVehiclesUsed(), b.GetTachograph().GetVehiclesUsed()
	if len(vs.GetRecords()) != len(ws.GetRecords()) {
		return fmt.Sprintf("%d vehicles became %d", len(vs.GetRecords()), len(ws.GetRecords()))
	}
	if vs.GetNewestRecordIndex() != ws.GetNewestRecordIndex() {
		return "pointer to the newest vehicle"
	}
	var last int64
	for i, v := range vs.GetRecords() {
		w := ws.GetRecords()[i]
		switch {
		case v.GetVehicleRegistration().GetNation() != w.GetVehicleRegistration().GetNation():
			return fmt.Sprintf("nation of vehicle %d", i)
		case v.GetVuDataBlockCounter().GetValue() != w.GetVuDataBlockCounter().GetValue():
			return fmt.Sprintf("counter of vehicle %d", i)
		case v.GetVehicleOdometerBeginKm()/1000*1000 != w.GetVehicleOdometerBeginKm(), v.GetVehicleOdometerEndKm()/1000*1000 != w.GetVehicleOdometerEndKm():
			return fmt.Sprintf("odometer of vehicle %d: %d to %d became %d to %d", i, v.GetVehicleOdometerBeginKm(), v.GetVehicleOdometerEndKm(), w.GetVehicleOdometerBeginKm(), w.GetVehicleOdometerEndKm())
		case w.GetVehicleFirstUse().GetSeconds() <= last || w.GetVehicleLastUse().GetSeconds() < w.GetVehicleFirstUse().GetSeconds():
			return fmt.Sprintf("order of vehicle %d", i)
		}
		last = w.GetVehicleLastUse().GetSeconds()
	}
	ps, qs := a.GetTachograph().GetPlaces(), b.GetTachograph().GetPlaces()
	if len(ps.GetRecords()) != len(qs.GetRecords()) || ps.GetNewestRecordIndex() != qs.GetNewestRecordIndex() {
		return "number of places or pointer to the newest"
	}
	for i, v := range ps.GetRecords() {
		w := qs.GetRecords()[i]
		if s := place("first-generation", i, len(qs.GetRecords()), v.GetEntryTypeDailyWorkPeriod(), w.GetEntryTypeDailyWorkPeriod(), v.GetUnrecognizedEntryTypeDailyWorkPeriod(), w.GetUnrecognizedEntryTypeDailyWorkPeriod(), v.GetVehicleOdometerKm(), w.GetVehicleOdometerKm()); s != "" {
			return s
		}
	}
	ps2, qs2 := a.GetTachographG2().GetPlaces(), b.GetTachographG2().GetPlaces()
	if len(ps2.GetRecords()) != len(qs2.GetRecords()) || ps2.GetNewestRecordIndex() != qs2.GetNewestRecordIndex() {
		return "number of places or pointer to the newest, second generation"
	}
	for i, v := range ps2.GetRecords() {
		w := qs2.GetRecords()[i]
		if s := place("second-generation", i, len(qs2.GetRecords()), v.GetEntryTypeDailyWorkPeriod(), w.GetEntryTypeDailyWorkPeriod(), v.GetUnrecognizedEntryTypeDailyWorkPeriod(), w.GetUnrecognizedEntryTypeDailyWorkPeriod(), v.GetVehicleOdometerKm(), w.GetVehicleOdometerKm()); s != "" {
			return s
		}
		if g, h := v.GetEntryGnssPlaceRecord(), w.GetEntryGnssPlaceRecord(); (g == nil) != (h == nil) || g.GetGnssAccuracy() != h.GetGnssAccuracy() {
			return fmt.Sprintf("position of second-generation place %d", i)
		}
	}
	return ""
}

// simChanges are all activity changes of a card.
func simChanges(f *tachographv1.File) (out []*ddv1.ActivityChangeInfo) {
	for _, a := range []*cardv1.DriverActivityData{f.GetDriverCard().GetTachograph().GetDriverActivityData(), f.GetDriverCard().GetTachographG2().GetDriverActivityData()} {
		for _, d := range a.GetDailyRecords() {
			out = append(out, d.GetActivityChangeInfo()...)
		}
	}
	return out
}

// simDropRaw removes the bytes a message was read from.
func simDropRaw(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Name() == "raw_data":
			m.Clear(fd)
		case fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				simDropRaw(v.List().Get(i).Message())
			}
		default:
			simDropRaw(v.Message())
		}
		return true
	})
}

// simOnly removes from m what other does not have.
func simOnly(m, other protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case !other.Has(fd):
			m.Clear(fd)
		case fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < min(v.List().Len(), other.Get(fd).List().Len()); i++ {
				simOnly(v.List().Get(i).Message(), other.Get(fd).List().Get(i).Message())
			}
		default:
			simOnly(v.Message(), other.Get(fd).Message())
		}
		return true
	})
}

// simFill gives a message any content.
func simFill(p *simPen, m protoreflect.Message) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if p.one(6) {
			continue
		}
		switch {
		case fd.IsList() && fd.Message() != nil:
			for l, n := m.Mutable(fd).List(), p.n(5); l.Len() < n; {
				simFill(p, l.AppendMutable().Message())
			}
		case fd.IsList():
		case fd.Message() != nil && fd.Message().Name() == "Timestamp":
			m.Set(fd, protoreflect.ValueOfMessage((&timestamppb.Timestamp{Seconds: int64(p.epoch())}).ProtoReflect()))
		case fd.Message() != nil:
			simFill(p, m.Mutable(fd).Message())
		case fd.Kind() == protoreflect.EnumKind:
			vs := fd.Enum().Values()
			m.Set(fd, protoreflect.ValueOfEnum(vs.Get(p.n(vs.Len())).Number()))
		case fd.Kind() == protoreflect.BoolKind:
			m.Set(fd, protoreflect.ValueOfBool(p.one(2)))
		case strings.Contains(string(fd.Name()), "odometer"):
			m.Set(fd, protoreflect.ValueOfInt32(int32(p.odo())))
		default:
			m.Set(fd, simOtherValue(p, fd, m.Get(fd)))
		}
	}
}

// simOtherValue is any value of a field that holds no message.
func simOtherValue(p *simPen, fd protoreflect.FieldDescriptor, old protoreflect.Value) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind:
		return protoreflect.ValueOfInt32(int32(p.n(100)))
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(int64(p.n(100)))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(p.word().val)
	case protoreflect.BytesKind:
		if n := len(old.Bytes()); n > 0 {
			return protoreflect.ValueOfBytes(p.bytes(n))
		}
		return protoreflect.ValueOfBytes(p.bytes(1 + p.n(20)))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(p.n(vs.Len())).Number())
	}
	return old
}

// simTwinMessage redraws whatever of a message would tell who, when or where.
func simTwinMessage(p *simPen, m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		n := string(fd.Name())
		switch {
		case n == "card_type", n == "card_issuing_member_state", n == "card_holder_preferred_language", n == "nation",
			n == "newest_record_index", n == "consecutive_index", n == "replacement_index", n == "renewal_index",
			n == "vu_data_block_counter", n == "gnss_accuracy", strings.HasSuffix(n, "entry_type_daily_work_period"):
		case fd.IsList() && fd.Message() != nil:
			for i := 0; i < v.List().Len(); i++ {
				simTwinMessage(p, v.List().Get(i).Message())
			}
		case fd.IsList(), fd.Kind() == protoreflect.BoolKind:
		case fd.Message() != nil && fd.Message().Name() == "Timestamp":
			m.Set(fd, protoreflect.ValueOfMessage((&timestamppb.Timestamp{Seconds: int64(p.epoch())}).ProtoReflect()))
		case fd.Message() != nil:
			simTwinMessage(p, v.Message())
		case strings.HasPrefix(n, "vehicle_odometer_"):
			step := 1000
			if n == "vehicle_odometer_km" {
				step = 100
			}
			m.Set(fd, protoreflect.ValueOfInt32(int32(int(v.Int())/step*step+p.n(step))))
		default:
			m.Set(fd, simOtherValue(p, fd, v))
		}
		return true
	})
}

// simAnonMade anonymises records that come from no download: of any kind of
// card, with anything in them or missing.
func simAnonMade(r *simrt.Run) {
	p := &simPen{s: uint64(r.Bits("records"))}
	for i, n := 0, 1+r.Int("records", 6); i < n; i++ {
		var a, b, x, y proto.Message
		var anon func(m proto.Message) proto.Message
		switch r.Int("kind", 7) {
		case 0, 1, 2:
			a, anon = &cardv1.Identification{}, func(m proto.Message) proto.Message {
				return card.AnonymizeIdentification(m.(*cardv1.Identification))
			}
		case 3, 4:
			a, anon = &cardv1.VehiclesUsed{}, func(m proto.Message) proto.Message {
				return card.AnonymizeVehiclesUsed(m.(*cardv1.VehiclesUsed))
			}
		case 5:
			a, anon = &cardv1.Places{}, func(m proto.Message) proto.Message { return card.AnonymizePlaces(m.(*cardv1.Places)) }
		case 6:
			a, anon = &cardv1.PlacesG2{}, func(m proto.Message) proto.Message { return card.AnonymizePlacesG2(m.(*cardv1.PlacesG2)) }
		}
		simFill(p, a.ProtoReflect())
		b = proto.Clone(a)
		simTwinMessage(p, b.ProtoReflect())
		a0 := proto.Clone(a)
		if !r.Try("anonymise", func() { x, y = anon(a), anon(b) }) {
			return
		}
		r.Nontrivial()
		k := string(a.ProtoReflect().Descriptor().Name())
		r.Logf("%s of %d bytes", k, proto.Size(a))
		if d := simDiffMsg(k, a.ProtoReflect(), a0.ProtoReflect()); d != "" {
			r.Fail("original changed: "+simFieldClass(d), "anonymising a copy changed the original: %s (after/before)", d)
			return
		}
		if d := simDiffMsg(k, x.ProtoReflect(), y.ProtoReflect()); d != "" {
			r.Fail("told apart: "+simFieldClass(d), "two records that differ only in whose they are, when and where they were made are told apart after anonymising: %s", d)
			return
		}
		if fd := x.ProtoReflect().Descriptor().Fields().ByName("signature"); len(x.ProtoReflect().Get(fd).Bytes()) > 0 {
			r.Fail("signature kept: "+k, "the signature of the original is still there in %s", k)
			return
		}
		if u, ok := a.(*cardv1.Identification); ok {
			w := x.(*cardv1.Identification)
			if u.GetCardType() != w.GetCardType() || u.HasCard() != w.HasCard() || u.GetCard().GetCardIssuingMemberState() != w.GetCard().GetCardIssuingMemberState() || u.GetCard().HasOwnerIdentification() != w.GetCard().HasOwnerIdentification() ||
				u.GetCard().HasDriverIdentification() != w.GetCard().HasDriverIdentification() {
				r.Fail("structure lost", "anonymising changed what identifies nobody: the type, the state or the presence of the number of a card")
				return
			}
			var s string
			if o, q := u.GetCard().GetOwnerIdentification(), w.GetCard().GetOwnerIdentification(); o != nil {
				for _, n := range []protoreflect.Name{"consecutive_index", "replacement_index", "renewal_index"} {
					fd := o.ProtoReflect().Descriptor().Fields().ByName(n)
					if s = simDiffMsg(string(n), q.ProtoReflect().Get(fd).Message(), o.ProtoReflect().Get(fd).Message()); s != "" {
						r.Fail("structure lost", "anonymising changed what identifies nobody: %s", s)
						return
					}
				}
			}
			switch u.GetCardType() {
			case cardv1.CardType_DRIVER_CARD:
				s = simDiffMsg("language", w.GetDriverCardHolder().GetCardHolderPreferredLanguage().ProtoReflect(), u.GetDriverCardHolder().GetCardHolderPreferredLanguage().ProtoReflect())
			case cardv1.CardType_WORKSHOP_CARD:
				s = simDiffMsg("language", w.GetWorkshopCardHolder().GetCardHolderPreferredLanguage().ProtoReflect(), u.GetWorkshopCardHolder().GetCardHolderPreferredLanguage().ProtoReflect())
			case cardv1.CardType_CONTROL_CARD:
				s = simDiffMsg("language", w.GetControlCardHolder().GetCardHolderPreferredLanguage().ProtoReflect(), u.GetControlCardHolder().GetCardHolderPreferredLanguage().ProtoReflect())
			case cardv1.CardType_COMPANY_CARD:
				s = simDiffMsg("language", w.GetCompanyCardHolder().GetCardHolderPreferredLanguage().ProtoReflect(), u.GetCompanyCardHolder().GetCardHolderPreferredLanguage().ProtoReflect())
			}
			if s != "" {
				r.Fail("structure lost", "anonymising changed what identifies nobody: preferred language: %s", s)
				return
			}
		}
	}
}

func simC26(r *simrt.Run) {
	if r.Chance("no download", 1, 4) {
		simAnonMade(r)
		return
	}
	m := simDownload(r, "file", 1, 0, 0)
	recs := slices.Clone(m.recs)
	damaged := r.Chance("damaged", 1, 3)
	if damaged {
		for i, n := 0, 1+r.Int("damages", 3); i < n; i++ {
			x := &recs[r.Int("record", len(recs))]
			x.val = bytes.Clone(x.val)
			simDamage(r, "damage", x.val)
		}
	}
	p := &simPen{s: uint64(r.Bits("twin"))}
	twins := make([]simRec, len(recs))
	for i, x := range recs {
		twins[i] = simTwin(p, x)
	}
	a, err1, ok1 := simRead(r, "read", bytes.Clone(simTLV(recs...)))
	b, err2, ok2 := simRead(r, "read the twin", bytes.Clone(simTLV(twins...)))
	if !ok1 || !ok2 {
		return
	}
	r.Logf("%v damaged=%v: error=%v, twin: error=%v", m, damaged, err1 != nil, err2 != nil)
	if err1 != nil || err2 != nil {
		if !damaged {
			r.Fail("genuine file refused", "a genuine card was not read: %v, %v", err1, err2)
		}
		return
	}
	if damaged && (simOwned(a) || simOwned(b)) {
		return // the number is so damaged that the card is no driver's any more
	}
	a0 := proto.CloneOf(a)
	var x, y *tachographv1.File
	if !r.Try("anonymise", func() { x, y = simAnon(a), simAnon(b) }) {
		return
	}
	r.Nontrivial()
	if d := simDiffMsg("file", a.ProtoReflect(), a0.ProtoReflect()); d != "" {
		r.Fail("original changed: "+simFieldClass(d), "anonymising a copy changed the original: %s (after/before)", d)
		return
	}
	ps, qs := simParts(x), simParts(y)
	for _, k := range []string{"tachograph.identification", "tachograph.vehicles_used", "tachograph.places", "tachograph_g2.identification", "tachograph_g2.places"} {
		if (ps[k] == nil) != (qs[k] == nil) {
			r.Fail("told apart: "+k, "one of two cards that differ in whose, when and where only lost its %s", k)
			return
		}
		if ps[k] == nil {
			continue
		}
		if d := simDiffMsg(k, ps[k], qs[k]); d != "" {
			r.Fail("told apart: "+simFieldClass(d), "two cards that differ only in whose they are, when and where they were used are told apart after anonymising: %s", d)
			return
		}
		if fd := ps[k].Descriptor().Fields().ByName("signature"); fd != nil && len(ps[k].Get(fd).Bytes()) > 0 {
			r.Fail("signature kept: "+k, "the signature of the original is still there in %s", k)
			return
		}
	}
	for i, c := range simChanges(a) {
		at := r.Int("change at", 1440)
		n := p.n(200)
		t := proto.CloneOf(c)
		t.SetTimeOfChangeMinutes(int32(at))
		t.SetRawData(nil)
		var u, w *ddv1.ActivityChangeInfo
		if !r.Try("anonymise change", func() { u, w = dd.AnonymizeActivityChangeInfo(c, n), dd.AnonymizeActivityChangeInfo(t, n) }) {
			return
		}
		if d := simDiffMsg("activity_change_info", u.ProtoReflect(), w.ProtoReflect()); d != "" {
			r.Fail("told apart: "+simFieldClass(d), "two activity changes that differ in their time only are told apart after anonymising: %s", d)
			return
		}
		if u.GetSlot() != c.GetSlot() || u.GetCrew() != c.GetCrew() || u.GetInserted() != c.GetInserted() || u.GetActivity() != c.GetActivity() {
			r.Fail("activity changed", "anonymising changed what activity change %d is: %v became %v", i, c, u)
			return
		}
		if i > 20 {
			break
		}
	}
	if s := simAnonKept(a, x); s != "" {
		r.Fail("structure lost", "anonymising changed what identifies nobody: %s", s)
		return
	}
	var out []byte
	var err error
	if !r.Try("save", func() { out, err = tachograph.MarshalFile(x) }) {
		return
	}
	if err != nil {
		if !damaged {
			r.Fail("not saved", "an anonymised card was not saved: %s", simShort(err.Error()))
		}
		return
	}
	z, err, ok := simRead(r, "reload", bytes.Clone(out))
	if !ok {
		return
	}
	if err != nil {
		r.Fail("not reloaded", "the anonymised card cannot be read: %s", simShort(err.Error()))
		return
	}
	simDropRaw(z.ProtoReflect())
	simDropRaw(x.ProtoReflect())
	simOnly(z.ProtoReflect(), x.ProtoReflect())
	if d := simDiffMsg("file", z.ProtoReflect(), x.ProtoReflect()); d != "" {
		r.Fail("reload differs: "+simFieldClass(d), "the anonymised card differs after saving: %s (reloaded/anonymised)", d)
	}
}

// simOwned tells whether a card number was read as that of an owner, not of a
// driver.
func simOwned(f *tachographv1.File) bool {
	c := f.GetDriverCard()
	return c.GetTachograph().GetIdentification().GetCard().HasOwnerIdentification() || c.GetTachographG2().GetIdentification().GetCard().HasOwnerIdentification()
}
