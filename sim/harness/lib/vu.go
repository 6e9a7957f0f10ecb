package tachograph_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"simrt"

	"github.com/way-platform/tachograph-go"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// C24: a download of a vehicle unit is reported transfer by transfer.
//
// A simulated vehicle unit of any generation and the download tool that reads
// it, after the regulation (Annex IC, Appendices 1 and 7).

func init() {
	simScenarios["C24"] = simrt.Scenario{Run: simVUHistory}
}

// simTransfer is one transfer of a download: its bytes (after the tag), its
// signature, and what must be reported for it.
type simTransfer struct {
	trep byte
	raw  []byte
	sig  []byte
	want proto.Message // nil: only the bytes are reported
}

func (t simTransfer) bytes() []byte { return append([]byte{0x76, t.trep}, t.raw...) }

func simVUFile(ts []simTransfer) []byte {
	var b []byte
	for _, t := range ts {
		b = append(b, t.bytes()...)
	}
	return b
}

// simVUDay is what the vehicle unit remembers of a day.
type simVUDay struct {
	date       uint32
	odo        int
	iw         [][]byte
	iwWant     []*ddv1.VuCardIWRecord
	changes    []simChange
	places     [][]byte
	placeWant  []*vuv1.ActivitiesGen1_PlaceRecord
	conditions []int
	condTimes  []uint32
	borders    int
	loads      int
	gnss       int
}

type simLock struct {
	in, out    uint32
	name, addr simWord
	card       simHolder
}

type simCtl struct {
	typ            byte
	at, begin, end uint32
	card           simHolder
}

// simHolder is a full card number.
type simHolder struct {
	typ    byte
	nation simNation
	no     int
	idx    string // consecutive, replacement, renewal
}

func (p *simPen) holder(typ byte) simHolder {
	return simHolder{typ, p.nation(), p.n(100000), fmt.Sprintf("%X%X%X", p.n(16), p.n(16), p.n(16))}
}

func (h simHolder) enc() ([]byte, *ddv1.FullCardNumber) {
	m := &ddv1.FullCardNumber{}
	m.SetCardType([]ddv1.EquipmentType{ddv1.EquipmentType_RESERVED_MEMBER_STATE_OR_EUROPE, ddv1.EquipmentType_DRIVER_CARD, ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD}[h.typ])
	m.SetCardIssuingMemberState(h.nation.enum)
	b := []byte{h.typ, h.nation.code}
	switch h.typ {
	case 0:
		return append(b, make([]byte, 16)...), m
	case 1:
		id, im := simIA5(fmt.Sprintf("D%013d", h.no), 14)
		b1, m1 := simIA5(h.idx[1:2], 1)
		b2, m2 := simIA5(h.idx[2:3], 1)
		d := &ddv1.DriverIdentification{}
		d.SetDriverIdentificationNumber(im)
		d.SetCardReplacementIndex(m1)
		d.SetCardRenewalIndex(m2)
		m.SetDriverIdentification(d)
		return append(append(append(b, id...), b1...), b2...), m
	}
	id, im := simIA5(fmt.Sprintf("C%09d", h.no), 13)
	o := &ddv1.OwnerIdentification{}
	o.SetOwnerIdentification(im)
	b = append(b, id...)
	for i, set := range []func(*ddv1.Ia5StringValue){o.SetConsecutiveIndex, o.SetReplacementIndex, o.SetRenewalIndex} {
		x, xm := simIA5(h.idx[i:i+1], 1)
		b = append(b, x...)
		set(xm)
	}
	m.SetOwnerIdentification(o)
	return b, m
}

var simNoHolder = simHolder{typ: 0, nation: simNoNation, idx: "000"}

type simVU struct {
	r        *simrt.Run
	p        *simPen
	gen      int // 1, 2, or 3 for the second version of generation 2
	now      uint32
	odo      int
	vin      string
	plate    simPlate
	slots    [2]byte
	locks    []simLock
	controls []simCtl
	last     struct {
		at   uint32
		card simHolder
		name simWord
	}
	days           []*simVUDay
	speed          int // blocks
	events, faults int
	over, adjust   int
	calib          int
	tdArrays       [8]int
	lost           int
}

// simCount is a heavy-tailed count of records.
func (v *simVU) count(l string, most int) int {
	edge := []int{255, 256, 257, 511, 512, 600, 1023, 1024, 1400}
	var n int
	switch v.r.Weighted(l, 3, 6, 3, 2, 1) {
	case 0:
		n = 1 + v.p.n(3)
	case 1:
		n = v.p.n(40)
	case 2:
		n = 0
	case 3:
		n = v.p.n(300)
	case 4:
		n = edge[v.p.n(len(edge))]
	}
	return min(n, most)
}

func simNewVU(r *simrt.Run, l string) *simVU {
	p := &simPen{s: uint64(r.Bits(l + "/pen"))}
	v := &simVU{r: r, p: p, gen: 1 + r.Weighted(l+"/gen", 3, 2, 2), now: p.epoch(), odo: p.odo(), plate: p.plate()}
	v.vin = fmt.Sprintf("WDB%06d%08d", p.n(1000000), p.n(100000000))
	v.last.card, v.last.name = simNoHolder, simNoWord
	v.calib = 1 + p.n(4)
	return v
}

// night ends at the next midnight or later; the vehicle unit may be off for days.
func (v *simVU) day(l string) {
	p := v.p
	date := v.now - v.now%86400
	d := &simVUDay{date: date, odo: v.odo}
	v.days = append(v.days, d)
	// insertions and withdrawals
	power := -1
	if v.r.Chance(l+"/power", 1, 5) {
		power = p.n(6)
		v.r.Fault("power of the vehicle unit lost while cards were inserted")
		v.lost++
	}
	n := 0
	switch {
	case p.one(5):
	case v.r.Chance(l+"/manycards", 1, 20):
		n = 100 + p.n(200) // a test bench
	default:
		n = p.n(5)
	}
	at := v.now
	for i := 0; i < n; i++ {
		at = min(at+uint32(p.n(1+40000/max(1, n))), date+86399)
		slot := p.n(2)
		h := p.holder([]byte{1, 1, 1, 2, 3, 4}[p.n(6)])
		out, odo2 := uint32(0), 0
		if i != power && !p.one(8) {
			out = min(at+uint32(p.n(20000)), date+86399)
			v.odo = min(simOdoMax, v.odo+p.n(300))
			odo2 = v.odo
			v.slots[slot] = 0
		} else {
			v.slots[slot] = h.typ
		}
		b, m := simIW(p, h, at, d.odo, slot, out, odo2)
		d.iw, d.iwWant = append(d.iw, b), append(d.iwWant, m)
	}
	k := v.count(l+"/changes", 2880)
	for i := 0; i < k; i++ {
		d.changes = append(d.changes, simChange{co: p.one(2), crew: p.one(6), out: p.one(4), act: p.n(4), min: 1440 * i / k})
	}
	k = v.count(l+"/places", 255)
	for i := 0; i < k; i++ {
		h, _ := p.holder(1).enc()
		t, tm := simTime(date + uint32(p.n(86400)))
		typ, n, region, odo := p.n(2), p.nation(), byte(p.n(256)), min(simOdoMax, d.odo+p.n(500))
		b := append(append(h, t...), byte(typ), n.code, region)
		b = append(b, simU24(odo)...)
		m := &vuv1.ActivitiesGen1_PlaceRecord{}
		m.SetEntryTime(tm)
		m.SetEntryType(simEntryTypes[typ])
		m.SetCountry(n.enum)
		m.SetRegion([]byte{region})
		m.SetOdometerKm(int32(odo))
		d.places, d.placeWant = append(d.places, b), append(d.placeWant, m)
	}
	k = v.count(l+"/conditions", 1400)
	for i := 0; i < k; i++ {
		d.conditions = append(d.conditions, 1+p.n(4))
		d.condTimes = append(d.condTimes, date+uint32(p.n(86400)))
	}
	d.gnss = v.count(l+"/gnss", 1400)
	if v.gen == 3 {
		d.borders, d.loads = v.count(l+"/borders", 1400), v.count(l+"/loads", 1400)
	}
	v.now = date + 86400
	switch p.n(4) {
	case 0:
		v.now += uint32(86400 * p.n(20))
	case 1:
		v.now += uint32(p.n(3600))
	}
	if v.r.Chance(l+"/clock", 1, 8) {
		v.r.Fault("clock of the vehicle unit adjusted")
		v.now += uint32(p.n(2400)) - 1200
		v.adjust = min(255, v.adjust+1)
	}
}

// longDays fills the memory of the vehicle unit: a year and more of days on
// which little happened. (One decision in all, so that replays stay small.)
func (v *simVU) longDays(l string) {
	p := v.p
	for n := []int{255, 256, 257, 365, 366, 367, 380, 520, 1030}[v.r.Int(l+"/full", 9)]; n > 0; n-- {
		d := &simVUDay{date: v.now - v.now%86400, odo: v.odo}
		for k := p.n(3); k > 0; k-- {
			d.changes = append(d.changes, simChange{co: p.one(2), crew: p.one(6), out: p.one(4), act: p.n(4), min: 1440 - 100*k})
		}
		if p.one(9) {
			b, m := simIW(p, p.holder(1), v.now, d.odo, p.n(2), v.now+60, d.odo)
			d.iw, d.iwWant = append(d.iw, b), append(d.iwWant, m)
		}
		v.days = append(v.days, d)
		v.odo = min(simOdoMax, v.odo+p.n(600))
		v.now = d.date + 86400
	}
}

// others brings the workshop, the company and the control officer.
func (v *simVU) others(l string) {
	p := v.p
	for i, n := 0, v.count(l+"/locks", 255); i < n && len(v.locks) < 255; i++ {
		k := simLock{in: v.now - uint32(p.n(1<<24)), name: p.word(), addr: p.word(), card: p.holder(4)}
		if !p.one(3) {
			k.out = k.in + uint32(p.n(1<<20))
		}
		v.locks = append(v.locks, k)
	}
	for i, n := 0, v.count(l+"/controls", 255); i < n && len(v.controls) < 255; i++ {
		c := simCtl{typ: byte(p.n(256)), at: v.now - uint32(p.n(1<<20)), card: p.holder(3)}
		if p.one(2) {
			c.begin, c.end = c.at-uint32(p.n(1<<20)), c.at
		}
		v.controls = append(v.controls, c)
	}
	v.speed = v.count(l+"/speed", 1400)
	if v.r.Chance(l+"/fullspeed", 1, 12) {
		v.speed = 1024 + p.n(500)
	}
	v.events, v.faults = v.count(l+"/events", 255), v.count(l+"/faults", 255)
	v.over, v.adjust = v.count(l+"/over", 255), v.count(l+"/adjust", 255)
	v.calib = v.count(l+"/calib", 255)
	for i := range v.tdArrays {
		v.tdArrays[i] = v.count(l+"/td", 600)
	}
	if p.one(2) {
		v.last.at = v.now - uint32(p.n(1<<22))
		v.last.card = p.holder([]byte{4, 4, 2, 3, 1}[p.n(5)])
		v.last.name = p.word()
	}
}

func simIW(p *simPen, h simHolder, in uint32, odo, slot int, out uint32, odo2 int) ([]byte, *ddv1.VuCardIWRecord) {
	m := &ddv1.VuCardIWRecord{}
	hn := &ddv1.HolderName{}
	b, s := simText(p.word(), 35)
	hn.SetHolderSurname(s)
	f, fm := simText(p.word(), 35)
	hn.SetHolderFirstNames(fm)
	b = append(b, f...)
	m.SetCardHolderName(hn)
	x, xm := h.enc()
	b = append(b, x...)
	m.SetFullCardNumber(xm)
	d, dm := simDate(p.in(2018, 2035), p.in(1, 12), p.in(1, 28))
	b = append(b, d...)
	m.SetCardExpiryDate(dm)
	t, tm := simTime(in)
	b = append(b, t...)
	m.SetCardInsertionTime(tm)
	b = append(b, simU24(odo)...)
	m.SetOdometerAtInsertionKm(int32(odo))
	b = append(b, byte(slot))
	m.SetCardSlotNumber([]ddv1.CardSlotNumber{ddv1.CardSlotNumber_DRIVER_SLOT, ddv1.CardSlotNumber_CO_DRIVER_SLOT}[slot])
	t, tm = simTime(out)
	b = append(b, t...)
	m.SetCardWithdrawalTime(tm)
	b = append(b, simU24(odo2)...)
	m.SetOdometerAtWithdrawalKm(int32(odo2))
	pv := &ddv1.PreviousVehicleInfo{}
	pl, at := simNoPlate, uint32(0)
	if !p.one(4) {
		pl, at = p.plate(), in-uint32(p.n(1<<18))
	}
	pb, pm := pl.enc()
	t, tm = simTime(at)
	pb = append(pb, t...)
	pv.SetVehicleRegistration(pm)
	pv.SetCardWithdrawalTime(tm)
	pv.SetRawData(bytes.Clone(pb))
	b = append(b, pb...)
	m.SetPreviousVehicleInfo(pv)
	manual := p.n(2)
	b = append(b, byte(manual))
	m.SetManualInputFlag(manual == 1)
	m.SetRawData(bytes.Clone(b))
	return b, m
}

// ---------------------------------------------------------------- transfers

// array is a record array of generation 2 with n records of the given size.
func (v *simVU) array(typ byte, size, n int) []byte {
	b := append([]byte{typ}, simU16(size)...)
	b = append(b, simU16(n)...)
	x := v.p.bytes(1 + size)
	for i := 0; i < n; i++ {
		x[i%len(x)]++
		b = append(b, x[:size]...)
	}
	return b
}

func (v *simVU) signed(trep byte, b []byte, want proto.Message) simTransfer {
	sig := make([]byte, 128)
	if v.gen > 1 {
		sig = make([]byte, []int{64, 96, 128, 132}[v.p.n(4)])
	}
	h := simrt.HashBytes(b)
	for i := range sig {
		sig[i] = byte(simrt.Mix(h, uint64(i)))
	}
	if v.gen > 1 {
		b = append(b, 8)
		b = append(b, simU16(len(sig))...)
		b = append(b, 0, 1)
	}
	return simTransfer{trep: trep, raw: append(b, sig...), sig: sig, want: want}
}

func (v *simVU) cert2() int { return 204 + v.p.n(138) }

func (v *simVU) overview() simTransfer {
	p := v.p
	if v.gen == 1 {
		m := &vuv1.OverviewGen1{}
		ca := simCAs(1)[p.n(5)]
		c1, c2 := ca.Bytes, simCard1(ca, p.n(8))
		b := append(bytes.Clone(c1), c2...)
		m.SetMemberStateCertificate(c1)
		m.SetVuCertificate(c2)
		x, xm := simIA5(v.vin, 17)
		b = append(b, x...)
		m.SetVehicleIdentificationNumber(xm)
		y, ym := v.plate.enc()
		b = append(b, y...)
		m.SetVehicleRegistrationWithNation(ym)
		t, tm := simTime(v.now)
		b = append(b, t...)
		m.SetCurrentDateTime(tm)
		dp := &ddv1.DownloadablePeriod{}
		first := v.now - 365*86400
		t, tm = simTime(first)
		b = append(b, t...)
		dp.SetMinTime(tm)
		t, tm = simTime(v.now)
		b = append(b, t...)
		dp.SetMaxTime(tm)
		m.SetDownloadablePeriod(dp)
		kinds := []ddv1.SlotCardType{ddv1.SlotCardType_NO_CARD, ddv1.SlotCardType_DRIVER_CARD_INSERTED, ddv1.SlotCardType_WORKSHOP_CARD_INSERTED, ddv1.SlotCardType_CONTROL_CARD_INSERTED, ddv1.SlotCardType_COMPANY_CARD_INSERTED}
		b = append(b, v.slots[1]<<4|v.slots[0])
		m.SetDriverSlotCard(kinds[v.slots[0]])
		m.SetCoDriverSlotCard(kinds[v.slots[1]])
		da := &vuv1.OverviewGen1_DownloadActivity{}
		t, tm = simTime(v.last.at)
		b = append(b, t...)
		da.SetDownloadingTime(tm)
		c, cm := v.last.card.enc()
		b = append(b, c...)
		da.SetFullCardNumber(cm)
		s, sm := simText(v.last.name, 35)
		b = append(b, s...)
		da.SetCompanyOrWorkshopName(sm)
		m.SetDownloadActivities([]*vuv1.OverviewGen1_DownloadActivity{da})
		b = append(b, byte(len(v.locks)))
		var ls []*vuv1.OverviewGen1_CompanyLock
		for _, k := range v.locks {
			lm := &vuv1.OverviewGen1_CompanyLock{}
			t, tm := simTime(k.in)
			b = append(b, t...)
			lm.SetLockInTime(tm)
			t, tm = simTime(k.out)
			b = append(b, t...)
			lm.SetLockOutTime(tm)
			s, sm := simText(k.name, 35)
			b = append(b, s...)
			lm.SetCompanyName(sm)
			s, sm = simText(k.addr, 35)
			b = append(b, s...)
			lm.SetCompanyAddress(sm)
			c, cm := k.card.enc()
			b = append(b, c...)
			lm.SetCompanyCardNumber(cm)
			ls = append(ls, lm)
		}
		m.SetCompanyLocks(ls)
		b = append(b, byte(len(v.controls)))
		var cs []*vuv1.OverviewGen1_ControlActivity
		for _, k := range v.controls {
			km := &vuv1.OverviewGen1_ControlActivity{}
			x, xm := simControlType(k.typ)
			b = append(b, x...)
			km.SetControlType(xm)
			t, tm := simTime(k.at)
			b = append(b, t...)
			km.SetControlTime(tm)
			c, cm := k.card.enc()
			b = append(b, c...)
			km.SetControlCardNumber(cm)
			t, tm = simTime(k.begin)
			b = append(b, t...)
			km.SetDownloadPeriodBeginTime(tm)
			t, tm = simTime(k.end)
			b = append(b, t...)
			km.SetDownloadPeriodEndTime(tm)
			cs = append(cs, km)
		}
		m.SetControlActivities(cs)
		tr := v.signed(0x01, b, m)
		m.SetSignature(tr.sig)
		m.SetRawData(tr.raw)
		return tr
	}
	var b []byte
	b = append(b, v.array(4, v.cert2(), 1)...)
	b = append(b, v.array(14, v.cert2(), 1)...)
	b = append(b, v.array(10, 17, 1)...)
	vrn := 15
	trep := byte(0x21)
	if v.gen == 3 {
		vrn, trep = 14, 0x31
	}
	b = append(b, v.array(11, vrn, 1)...)
	b = append(b, v.array(3, 4, 1)...)
	b = append(b, v.array(19, 8, 1)...)
	b = append(b, v.array(2, 1, 1)...)
	b = append(b, v.array(18, 59, 1)...)
	b = append(b, v.array(16, 99, len(v.locks))...)
	b = append(b, v.array(17, 32, len(v.controls))...)
	return v.signed(trep, b, nil)
}

func (v *simVU) activities(d *simVUDay) simTransfer {
	if v.gen == 1 {
		m := &vuv1.ActivitiesGen1{}
		b, tm := simTime(d.date)
		m.SetDateOfDay(tm)
		b = append(b, simU24(d.odo)...)
		m.SetOdometerMidnightKm(int32(d.odo))
		b = append(b, simU16(len(d.iw))...)
		for _, x := range d.iw {
			b = append(b, x...)
		}
		m.SetCardIwData(d.iwWant)
		b = append(b, simU16(len(d.changes))...)
		var cs []*ddv1.ActivityChangeInfo
		for _, c := range d.changes {
			b = append(b, c.bytes()...)
			cs = append(cs, c.msg())
		}
		m.SetActivityChanges(cs)
		b = append(b, byte(len(d.places)))
		for _, x := range d.places {
			b = append(b, x...)
		}
		m.SetPlaces(d.placeWant)
		b = append(b, simU16(len(d.conditions))...)
		var ks []*ddv1.SpecificConditionRecord
		for i, c := range d.conditions {
			x, xm := simCondition(d.condTimes[i], c)
			b = append(b, x...)
			ks = append(ks, xm.(*ddv1.SpecificConditionRecord))
		}
		m.SetSpecificConditions(ks)
		tr := v.signed(0x02, b, m)
		m.SetSignature(tr.sig)
		m.SetRawData(tr.raw)
		return tr
	}
	b := v.array(6, 4, 1)
	b = append(b, v.array(5, 3, 1)...)
	b = append(b, v.array(13, 131, len(d.iw))...)
	b = append(b, v.array(1, 2, len(d.changes))...)
	place, ad := 40, 56
	trep := byte(0x22)
	if v.gen == 3 {
		place, ad, trep = 41, 57, 0x32
	}
	b = append(b, v.array(28, place, len(d.places))...)
	b = append(b, v.array(22, ad, d.gnss)...)
	b = append(b, v.array(9, 5, len(d.conditions))...)
	if v.gen == 3 {
		b = append(b, v.array(34, 55, d.borders)...)
		b = append(b, v.array(35, 58, d.loads)...)
	}
	return v.signed(trep, b, nil)
}

func (v *simVU) eventsAndFaults() simTransfer {
	p := v.p
	if v.gen == 1 {
		b := []byte{byte(v.faults)}
		b = append(b, p.bytes(82*v.faults)...)
		b = append(b, byte(v.events))
		b = append(b, p.bytes(83*v.events)...)
		b = append(b, p.bytes(9)...)
		b = append(b, byte(v.over))
		b = append(b, p.bytes(31*v.over)...)
		b = append(b, byte(v.adjust))
		b = append(b, p.bytes(98*v.adjust)...)
		return v.signed(0x03, b, nil)
	}
	fa, ev, trep := 88, 89, byte(0x23)
	if v.gen == 3 {
		fa, ev, trep = 89, 90, 0x33
	}
	b := v.array(24, fa, v.faults)
	b = append(b, v.array(21, ev, v.events)...)
	b = append(b, v.array(27, 9, 1)...)
	b = append(b, v.array(26, 32, v.over)...)
	b = append(b, v.array(30, 99, v.adjust)...)
	return v.signed(trep, b, nil)
}

func (v *simVU) detailedSpeed() simTransfer {
	if v.gen == 1 {
		b := simU16(v.speed)
		x := v.p.bytes(64)
		for i := 0; i < v.speed; i++ {
			binary.BigEndian.PutUint32(x, v.now+uint32(60*i))
			x[4+i%60]++
			b = append(b, x...)
		}
		return v.signed(0x04, b, nil)
	}
	return v.signed(0x24, v.array(20, 64, v.speed), nil)
}

func (v *simVU) technical() simTransfer {
	p := v.p
	if v.gen == 1 {
		b := p.bytes(136)
		b = append(b, byte(v.calib))
		b = append(b, p.bytes(167*v.calib)...)
		return v.signed(0x05, b, nil)
	}
	id, cal, trep := 124, 170, byte(0x25)
	if v.gen == 3 {
		id, cal, trep = 126, 263, 0x35
	}
	b := v.array(25, id, 1)
	b = append(b, v.array(31, 20, min(20, v.tdArrays[0]))...)
	b = append(b, v.array(33, 28, min(20, v.tdArrays[1]))...)
	b = append(b, v.array(12, cal, v.calib)...)
	b = append(b, v.array(15, 69, v.tdArrays[2])...)
	b = append(b, v.array(23, 27, v.tdArrays[3])...)
	b = append(b, v.array(32, 10, v.tdArrays[4])...)
	return v.signed(trep, b, nil)
}

// download is a session of a download tool: any selection of transfers in any
// order; days may be asked for twice.
func (v *simVU) download(l string) []simTransfer {
	r := v.r
	pick := r.Weighted(l+"/pick", 3, 3, 2) // everything; a selection; one thing
	want := func(what string) bool { return pick == 0 || r.Chance(l+"/"+what, 1, 2) }
	var ts []simTransfer
	if v.gen == 3 {
		ts = append(ts, simTransfer{trep: 0x00, raw: []byte{2, 2}})
	}
	if pick == 2 {
		switch r.Int(l+"/one", 5) {
		case 0:
			ts = append(ts, v.overview())
		case 1:
			if len(v.days) > 0 {
				ts = append(ts, v.activities(v.days[v.p.n(len(v.days))]))
			} else {
				ts = append(ts, v.overview())
			}
		case 2:
			ts = append(ts, v.eventsAndFaults())
		case 3:
			ts = append(ts, v.detailedSpeed())
		case 4:
			ts = append(ts, v.technical())
		}
		return ts
	}
	if want("overview") {
		ts = append(ts, v.overview())
	}
	for _, d := range v.days {
		if want("day") {
			ts = append(ts, v.activities(d))
		}
		if pick == 1 && r.Chance(l+"/again", 1, 10) {
			ts = append(ts, v.activities(d))
		}
	}
	// What a tool asked for again, after the link failed, say, is in the file
	// as often as the unit answered.
	often := func(what string, t func() simTransfer) {
		if !want(what) {
			return
		}
		ts = append(ts, t())
		if r.Chance(l+"/"+what+"-again", 1, 6) {
			for k := 1 + r.Int(l+"/"+what+"-times", 4); k > 0; k-- {
				if r.Chance(l+"/meanwhile", 1, 2) {
					v.others(l + "/meanwhile")
				}
				ts = append(ts, t())
			}
			v.r.Probe("a transfer other than a day's asked for again")
		}
	}
	often("events", v.eventsAndFaults)
	often("speed", v.detailedSpeed)
	often("technical", v.technical)
	if len(ts) == 0 {
		ts = append(ts, v.overview())
	}
	if r.Chance(l+"/order", 1, 3) {
		for i := len(ts) - 1; i > 0; i-- {
			j := v.p.n(i + 1)
			ts[i], ts[j] = ts[j], ts[i]
		}
		if v.gen == 3 && ts[0].trep == 0x24 {
			v.r.Probe("second-version download that begins with a transfer common to both versions")
		}
	} else if v.gen == 3 && r.Chance(l+"/speed-first", 1, 8) {
		// All that both versions of the second generation have in common
		// comes before what tells them apart.
		var first, rest []simTransfer
		for _, t := range ts {
			if t.trep == 0x24 {
				first = append(first, t)
			} else {
				rest = append(rest, t)
			}
		}
		ts = append(first, rest...)
		if len(first) > 2 {
			v.r.Probe("second-version download that begins with several transfers common to both versions")
		}
	}
	if v.gen == 3 && r.Chance(l+"/noversion", 1, 4) {
		// An older tool does not ask for the interface version.
		var out []simTransfer
		three := false
		for _, t := range ts {
			if t.trep != 0 {
				out = append(out, t)
				three = three || t.trep>>4 == 3
			}
		}
		if three {
			ts = out
		}
	}
	return ts
}

// ------------------------------------------------------------------- oracle

// simCheckVU compares a parsed vehicle unit file with the download.
func simCheckVU(gen int, ts []simTransfer, f *tachographv1.File) (string, string) {
	if f.GetType() != tachographv1.File_VEHICLE_UNIT || !f.HasVehicleUnit() {
		return "not a vehicle unit", fmt.Sprint("the download of a vehicle unit was read as ", f.GetType())
	}
	vu := f.GetVehicleUnit()
	wantGen, wantVer := ddv1.Generation_GENERATION_1, ddv1.Version_VERSION_UNSPECIFIED
	if gen > 1 {
		wantGen, wantVer = ddv1.Generation_GENERATION_2, ddv1.Version_VERSION_1+ddv1.Version(gen-2)
	}
	if vu.GetGeneration() != wantGen || gen > 1 && vu.GetVersion() != wantVer {
		return "generation", fmt.Sprintf("a generation %d download was reported as %v %v", gen, vu.GetGeneration(), vu.GetVersion())
	}
	names := []protoreflect.Name{"", "gen1", "gen2_v1", "gen2_v2"}
	m := vu.ProtoReflect()
	for g := 1; g <= 3; g++ {
		if has := m.Has(m.Descriptor().Fields().ByName(names[g])); has != (g == gen) {
			return "generation", fmt.Sprintf("%s set: %v, in a generation %d download", names[g], has, gen)
		}
	}
	g := m.Get(m.Descriptor().Fields().ByName(names[gen])).Message()
	kinds := []protoreflect.Name{"", "overview", "activities", "events_and_faults", "detailed_speed", "technical_data"}
	for k := 1; k <= 5; k++ {
		var want []simTransfer
		for _, t := range ts {
			if int(t.trep&15) == k {
				want = append(want, t)
			}
		}
		fd := g.Descriptor().Fields().ByName(kinds[k])
		var got []protoreflect.Message
		if fd.IsList() {
			for i, l := 0, g.Get(fd).List(); i < l.Len(); i++ {
				got = append(got, l.Get(i).Message())
			}
		} else if g.Has(fd) {
			got = append(got, g.Get(fd).Message())
		}
		if len(got) < len(want) {
			return "transfer lost", fmt.Sprintf("%d transfers of %s were reported, %d downloaded", len(got), kinds[k], len(want))
		}
		if len(got) > len(want) {
			return "transfer invented", fmt.Sprintf("%d transfers of %s were reported, %d downloaded", len(got), kinds[k], len(want))
		}
		for i, t := range want {
			fs := got[i].Descriptor().Fields()
			raw := got[i].Get(fs.ByName("raw_data")).Bytes()
			path := fmt.Sprintf("%s[%d]", kinds[k], i)
			if !bytes.Equal(raw, t.raw) {
				return "bytes of a transfer", fmt.Sprintf("%s: %d bytes reported, %d downloaded (or others)", path, len(raw), len(t.raw))
			}
			if sf := fs.ByName("signature"); sf != nil && (gen == 1 || got[i].Has(sf)) {
				if s := got[i].Get(sf).Bytes(); !bytes.Equal(s, t.sig) {
					return "signature of a transfer", fmt.Sprintf("%s: the signature reported is not that of the transfer (%d/%d bytes)", path, len(s), len(t.sig))
				}
			}
			if t.want != nil {
				if d := simDiffMsg(path, got[i], t.want.ProtoReflect()); d != "" {
					return "content differs: " + simFieldClass(d), d + " (reported/recorded)"
				}
			}
		}
	}
	return "", ""
}

func simVUHistory(r *simrt.Run) {
	v := simNewVU(r, "vu")
	n := 1 + r.Int("downloads", 3)
	for i := 0; i < n && !r.Failed(); i++ {
		l := fmt.Sprint("life", i)
		for k, days := 0, r.Int(l+"/days", 6); k < days; k++ {
			v.day(l)
		}
		if i == 0 && r.Chance(l+"/long", 1, 60) {
			v.longDays(l)
			r.Probe("download with more than 254 transfers of days")
		}
		if r.Chance(l+"/others", 3, 4) {
			v.others(l)
		}
		ts := v.download(l)
		data := simVUFile(ts)
		var f *tachographv1.File
		var err error
		if !r.Try("parse", func() { f, err = tachograph.UnmarshalFile(data) }) {
			return
		}
		r.Logf("download %d: generation %d, %d transfers, %d bytes, err %v", i, v.gen, len(ts), len(data), err)
		if err != nil {
			r.Fail("genuine download refused", "a genuine download was not read: %s", simShort(err.Error()))
			return
		}
		if class, msg := simCheckVU(v.gen, ts, f); class != "" {
			r.Fail(class, "%s", msg)
			return
		}
		simrt.Count("transfers compared", uint64(len(ts)))
		if v.lost > 0 || len(ts) > 3 {
			r.Nontrivial()
		}
		if len(data) > 1<<16 {
			r.Probe("download larger than 64 KiB")
		}
		if len(v.locks) == 255 || len(v.controls) == 255 {
			r.Probe("count field at its limit")
		}
	}
}
