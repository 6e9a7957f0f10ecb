package tachograph_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"simrt"
	"strings"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// A simulated driver card and the vehicle units that write to it over the
// years, after the regulation (Annex IC, Appendices 1 and 2). Every value is
// written twice: as the bytes the regulation prescribes and as the message a
// reader must report for them. Nothing here uses the code under test.

// simPen makes up values. It is a stream of its own, so that the choices that
// shape a run stay few.
type simPen struct{ s, i uint64 }

func (p *simPen) n(k int) int {
	p.i++
	return int(simrt.Mix(p.s, p.i) >> 1 % uint64(k))
}
func (p *simPen) in(from, to int) int { return from + p.n(to-from+1) }
func (p *simPen) one(k int) bool      { return p.n(k) == 0 }
func (p *simPen) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, p.n(i+1))
	}
}
func (p *simPen) bytes(k int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(p.n(256))
	}
	return b
}

type simWord struct {
	cp  byte
	enc ddv1.Encoding
	raw string
	val string
}

var simWords = []simWord{
	{1, ddv1.Encoding_ISO_8859_1, "Andersson", "Andersson"},
	{1, ddv1.Encoding_ISO_8859_1, "M\xfcller", "Müller"},
	{1, ddv1.Encoding_ISO_8859_1, "Sj\xf6str\xf6m \xc5ke", "Sjöström Åke"},
	{1, ddv1.Encoding_ISO_8859_1, "ABC 123", "ABC 123"},
	{1, ddv1.Encoding_ISO_8859_1, "W", "W"},
	{2, ddv1.Encoding_ISO_8859_2, "Wa\xb3\xeasa", "Wałęsa"},
	{5, ddv1.Encoding_ISO_8859_5, "\xb8\xd2\xd0\xdd", "Иван"},
	{7, ddv1.Encoding_ISO_8859_7, "\xc3\xe9\xfe\xf1\xe3\xef\xf2", "Γιώργος"},
	{9, ddv1.Encoding_ISO_8859_9, "\xddstanbul", "İstanbul"},
	{15, ddv1.Encoding_ISO_8859_15, "B\xbduf", "Bœuf"},
	{0, ddv1.Encoding_ENCODING_DEFAULT, "Smith", "Smith"},
	{1, ddv1.Encoding_ISO_8859_1, "Perell\xe0", "Perellà"}, // ends in the byte A0 in UTF-8
	{3, ddv1.Encoding_ISO_8859_3, "\xd5orb", "Ġorb"},
	{5, ddv1.Encoding_ISO_8859_5, "\xc7\xd5\xe0\xdd\xeb\xe5", "Черных"}, // ends in the byte 85
	{5, ddv1.Encoding_ISO_8859_5, "\xb0\xc0", "АР"},                     // ends in the byte A0
	{13, ddv1.Encoding_ISO_8859_13, "\xd0arka", "Šarka"},
	{16, ddv1.Encoding_ISO_8859_16, "Popa \xaa", "Popa Ș"},
	{80, ddv1.Encoding_KOI8_R, "\xe9\xd7\xc1\xce", "Иван"},
	{80, ddv1.Encoding_KOI8_R, "\xde\xc5\xd2\xce\xd9\xc8", "черных"},
	{85, ddv1.Encoding_KOI8_U, "\xeb\xc9\xa7\xd7", "Київ"},
	// These fill any field.
	{1, ddv1.Encoding_ISO_8859_1, "AB-12345-CDEFG-67890-HIJKLMNOPQRSTUVWXYZ", "AB-12345-CDEFG-67890-HIJKLMNOPQRSTUVWXYZ"},
	{5, ddv1.Encoding_ISO_8859_5, strings.Repeat("\xb0\xd2\xdd\xc0\xd0", 8), strings.Repeat("АвнРа", 8)},
	{2, ddv1.Encoding_ISO_8859_2, strings.Repeat("\xb3\xeaW7\xa3", 8), strings.Repeat("łęW7Ł", 8)},
}

func (p *simPen) word() simWord { return simWords[p.n(len(simWords))] }

// simOdoMax is the largest value of an odometer (data dictionary, 2.113).
const simOdoMax = 9_999_999

func (p *simPen) odo() int {
	switch p.n(4) {
	case 0:
		return 8_388_000 + p.n(700) // around 2^23
	case 1:
		return p.n(simOdoMax - 10_000)
	case 2:
		return simOdoMax - p.n(500)
	}
	return p.n(900_000)
}

// epoch is when a device is first used: mostly now, at times before, around or
// after the years in which signed seconds end.
func (p *simPen) epoch() uint32 {
	switch p.n(8) {
	case 0:
		return uint32(2_140_000_000 + p.n(12_000_000))
	case 1:
		return uint32(2_200_000_000 + p.n(1_600_000_000))
	}
	return uint32(1_500_000_000 + p.n(200_000_000))
}

// text is a code page and n characters.
func simText(w simWord, n int) ([]byte, *ddv1.StringValue) {
	if len(w.raw) > n {
		w.raw, w.val = w.raw[:n], string([]rune(w.val)[:n]) // one byte each
	}
	b := append([]byte{w.cp}, w.raw...)
	for len(b) < n+1 {
		b = append(b, ' ')
	}
	b = b[:n+1]
	m := &ddv1.StringValue{}
	m.SetEncoding(w.enc)
	m.SetLength(int32(n))
	m.SetRawData(bytes.Clone(b))
	m.SetValue(w.val)
	return b, m
}

var simNoWord = simWord{0, ddv1.Encoding_ENCODING_DEFAULT, "", ""}

func simIA5(s string, n int) ([]byte, *ddv1.Ia5StringValue) {
	b := []byte(s)
	for len(b) < n {
		b = append(b, ' ')
	}
	m := &ddv1.Ia5StringValue{}
	m.SetLength(int32(n))
	m.SetValue(s)
	m.SetRawData(bytes.Clone(b))
	return b, m
}

type simNation struct {
	code byte
	enum ddv1.NationNumeric
}

// The codes of the data dictionary, section 2.101.
var simNations = []simNation{
	{1, ddv1.NationNumeric_AUSTRIA},
	{2, ddv1.NationNumeric_ALBANIA},
	{3, ddv1.NationNumeric_ANDORRA},
	{4, ddv1.NationNumeric_ARMENIA},
	{5, ddv1.NationNumeric_AZERBAIJAN},
	{6, ddv1.NationNumeric_BELGIUM},
	{7, ddv1.NationNumeric_BULGARIA},
	{8, ddv1.NationNumeric_BOSNIA_HERZEGOVINA},
	{9, ddv1.NationNumeric_BELARUS},
	{10, ddv1.NationNumeric_SWITZERLAND},
	{11, ddv1.NationNumeric_CYPRUS},
	{12, ddv1.NationNumeric_CZECH_REPUBLIC},
	{13, ddv1.NationNumeric_GERMANY},
	{14, ddv1.NationNumeric_DENMARK},
	{15, ddv1.NationNumeric_SPAIN},
	{16, ddv1.NationNumeric_ESTONIA},
	{17, ddv1.NationNumeric_FRANCE},
	{18, ddv1.NationNumeric_FINLAND},
	{19, ddv1.NationNumeric_LIECHTENSTEIN},
	{20, ddv1.NationNumeric_FAROE_ISLANDS},
	{21, ddv1.NationNumeric_UNITED_KINGDOM},
	{22, ddv1.NationNumeric_GEORGIA},
	{23, ddv1.NationNumeric_GREECE},
	{24, ddv1.NationNumeric_HUNGARY},
	{25, ddv1.NationNumeric_CROATIA},
	{26, ddv1.NationNumeric_ITALY},
	{27, ddv1.NationNumeric_IRELAND},
	{28, ddv1.NationNumeric_ICELAND},
	{29, ddv1.NationNumeric_KAZAKHSTAN},
	{30, ddv1.NationNumeric_LUXEMBOURG},
	{31, ddv1.NationNumeric_LITHUANIA},
	{32, ddv1.NationNumeric_LATVIA},
	{33, ddv1.NationNumeric_MALTA},
	{34, ddv1.NationNumeric_MONACO},
	{35, ddv1.NationNumeric_MOLDOVA},
	{36, ddv1.NationNumeric_NORTH_MACEDONIA},
	{37, ddv1.NationNumeric_NORWAY},
	{38, ddv1.NationNumeric_NETHERLANDS},
	{39, ddv1.NationNumeric_PORTUGAL},
	{40, ddv1.NationNumeric_POLAND},
	{41, ddv1.NationNumeric_ROMANIA},
	{42, ddv1.NationNumeric_SAN_MARINO},
	{43, ddv1.NationNumeric_RUSSIA},
	{44, ddv1.NationNumeric_SWEDEN},
	{45, ddv1.NationNumeric_SLOVAKIA},
	{46, ddv1.NationNumeric_SLOVENIA},
	{47, ddv1.NationNumeric_TURKMENISTAN},
	{48, ddv1.NationNumeric_TURKEY},
	{49, ddv1.NationNumeric_UKRAINE},
	{50, ddv1.NationNumeric_VATICAN_CITY},
	{53, ddv1.NationNumeric_SERBIA},
	{54, ddv1.NationNumeric_MONTENEGRO},
	{56, ddv1.NationNumeric_KYRGYZ_REPUBLIC},
	{253, ddv1.NationNumeric_EUROPEAN_COMMUNITY},
	{254, ddv1.NationNumeric_REST_OF_WORLD},
	{255, ddv1.NationNumeric_NATION_NUMERIC_EMPTY},
}

var simNoNation = simNation{0, ddv1.NationNumeric_NATION_NUMERIC_DEFAULT}

func (p *simPen) nation() simNation { return simNations[p.n(len(simNations))] }

func simTime(t uint32) ([]byte, *timestamppb.Timestamp) {
	b := binary.BigEndian.AppendUint32(nil, t)
	if t == 0 {
		return b, nil
	}
	return b, &timestamppb.Timestamp{Seconds: int64(t)}
}

func simBCD(v, digits int) []byte {
	b := make([]byte, digits/2)
	for i := digits - 1; i >= 0; i-- {
		b[i/2] |= byte(v%10) << (4 * (1 - i%2))
		v /= 10
	}
	return b
}

func simBCDMsg(v, size int) *ddv1.BcdString {
	m := &ddv1.BcdString{}
	m.SetValue(int32(v))
	m.SetLength(int32(size))
	return m
}

func simU24(v int) []byte { return []byte{byte(v >> 16), byte(v >> 8), byte(v)} }
func simU16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

// simPlate is a vehicle registration.
type simPlate struct {
	nation simNation
	word   simWord
}

func (v simPlate) enc() ([]byte, *ddv1.VehicleRegistrationIdentification) {
	t, tm := simText(v.word, 13)
	m := &ddv1.VehicleRegistrationIdentification{}
	m.SetNation(v.nation.enum)
	m.SetNumber(tm)
	return append([]byte{v.nation.code}, t...), m
}

func (p *simPen) plate() simPlate { return simPlate{p.nation(), p.word()} }

var simNoPlate = simPlate{simNoNation, simNoWord}

func simControlType(b byte) ([]byte, *ddv1.ControlType) {
	m := &ddv1.ControlType{}
	m.SetRawData([]byte{b})
	m.SetCardDownloading(b&0x80 != 0)
	m.SetVuDownloading(b&0x40 != 0)
	m.SetPrinting(b&0x20 != 0)
	m.SetDisplay(b&0x10 != 0)
	m.SetCalibrationChecking(b&0x08 != 0)
	return []byte{b}, m
}

func simDate(y, m, d int) ([]byte, *ddv1.Date) {
	b := append(append(simBCD(y, 4), simBCD(m, 2)...), simBCD(d, 2)...)
	o := &ddv1.Date{}
	o.SetRawData(bytes.Clone(b))
	o.SetYear(int32(y))
	o.SetMonth(int32(m))
	o.SetDay(int32(d))
	return b, o
}

// ------------------------------------------------------------------- files

// simStore is an elementary file of cyclic records: where its pointer lies,
// and for each slot the bytes and what they mean.
type simStore struct {
	ptr  int // size of the pointer
	size int // size of a record
	n    int
	raw  [][]byte
	want []proto.Message
	cur  int // newest record
	used int // records ever written
}

func simNewStore(ptr, n int, blank func() ([]byte, proto.Message)) *simStore {
	s := &simStore{ptr: ptr, n: n}
	for i := 0; i < n; i++ {
		b, m := blank()
		s.raw, s.want, s.size = append(s.raw, b), append(s.want, m), len(b)
	}
	return s
}

func (s *simStore) bytes() []byte {
	var b []byte
	switch s.ptr {
	case 1:
		b = append(b, byte(s.cur))
	case 2:
		b = append(b, simU16(s.cur)...)
	}
	for _, r := range s.raw {
		b = append(b, r...)
	}
	return b
}

// next is the slot of the next record.
func (s *simStore) next() int {
	if s.used == 0 {
		return 0
	}
	return (s.cur + 1) % s.n
}

// simChange is one change of activity: slot, crew, not inserted, activity, minute.
type simChange struct {
	co, crew, out bool
	act, min      int
}

func (c simChange) bytes() []byte {
	v := c.act<<11 | c.min
	if c.co {
		v |= 1 << 15
	}
	if c.crew {
		v |= 1 << 14
	}
	if c.out {
		v |= 1 << 13
	}
	return simU16(v)
}

func (c simChange) msg() *ddv1.ActivityChangeInfo {
	m := &ddv1.ActivityChangeInfo{}
	m.SetRawData(c.bytes())
	m.SetSlot(ddv1.CardSlotNumber_DRIVER_SLOT)
	if c.co {
		m.SetSlot(ddv1.CardSlotNumber_CO_DRIVER_SLOT)
	}
	m.SetCrew(c.crew)
	m.SetInserted(!c.out)
	m.SetActivity([]ddv1.DriverActivityValue{ddv1.DriverActivityValue_BREAK_REST, ddv1.DriverActivityValue_AVAILABILITY, ddv1.DriverActivityValue_WORK, ddv1.DriverActivityValue_DRIVING}[c.act])
	m.SetTimeOfChangeMinutes(int32(c.min))
	return m
}

// simDay is one day on the card, as its history has it.
type simDay struct {
	pos, prev, counter, km int
	date                   uint32
	changes                []simChange
}

func (d *simDay) len() int { return 12 + 2*len(d.changes) }

func (d *simDay) header() []byte {
	b := append(simU16(d.prev), simU16(d.len())...)
	b = binary.BigEndian.AppendUint32(b, d.date)
	b = append(b, simBCD(d.counter, 4)...)
	return append(b, simU16(d.km)...)
}

func (d *simDay) msg() *cardv1.DriverActivityData_DailyRecord {
	m := &cardv1.DriverActivityData_DailyRecord{}
	m.SetValid(true)
	m.SetActivityPreviousRecordLength(int32(d.prev))
	m.SetActivityRecordLength(int32(d.len()))
	m.SetActivityRecordDate(&timestamppb.Timestamp{Seconds: int64(d.date)})
	m.SetActivityDailyPresenceCounter(simBCDMsg(d.counter, 2))
	m.SetActivityDayDistance(int32(d.km))
	var cs []*ddv1.ActivityChangeInfo
	for _, c := range d.changes {
		cs = append(cs, c.msg())
	}
	m.SetActivityChangeInfo(cs)
	return m
}

// simActivity is the cyclic storage of daily records.
type simActivity struct {
	buf            []byte
	oldest, newest int
	days           []*simDay // oldest first
}

func (a *simActivity) put(pos int, b []byte) {
	for i, c := range b {
		a.buf[(pos+i)%len(a.buf)] = c
	}
}

func (a *simActivity) last() *simDay {
	if len(a.days) == 0 {
		return nil
	}
	return a.days[len(a.days)-1]
}

func (a *simActivity) usedBytes() int {
	n := 0
	for _, d := range a.days {
		n += d.len()
	}
	return n
}

func (a *simActivity) bytes() []byte {
	return append(append(simU16(a.oldest), simU16(a.newest)...), a.buf...)
}

func (a *simActivity) msg() *cardv1.DriverActivityData {
	m := &cardv1.DriverActivityData{}
	m.SetOldestDayRecordIndex(int32(a.oldest))
	m.SetNewestDayRecordIndex(int32(a.newest))
	m.SetRawData(bytes.Clone(a.buf))
	var ds []*cardv1.DriverActivityData_DailyRecord
	for _, d := range a.days {
		ds = append(ds, d.msg())
	}
	m.SetDailyRecords(ds)
	return m
}

// simDF is a tachograph application on the card.
type simDF struct {
	gen                                     int
	v2                                      bool
	events, faults                          *simStore
	nEv, nFa                                int
	act                                     *simActivity
	vehicles, places, conditions, vus, gnss *simStore
	sessionTime                             uint32
	sessionPlate                            simPlate
	download                                uint32
	idBytes                                 []byte
	idWant                                  *cardv1.Identification
	controlRaw                              []byte
	controlWant                             *cardv1.ControlActivityData
	idxA, idxB                              byte // replacement and renewal index of the card
	authority, surname, first, licAuth      simWord
	nation                                  simNation
	evNext, faNext                          [11]int
	vuCounter                               int
}

// simCardLife is a card and its life so far.
type simCardLife struct {
	r     *simrt.Run
	p     *simPen
	dfs   []*simDF
	now   uint32
	odo   int
	power int // commands until the power fails; negative: it stays
	d     *simDriver
	lost  int
	cmds  int
	noSig bool

	icc, ic         []byte
	iccWant, icWant proto.Message
}

type simPowerLoss struct{}

// cmd is one command to the card. It is carried out, or the power was lost
// before it.
func (c *simCardLife) cmd(f func()) {
	c.cmds++
	if c.power == 0 {
		panic(simPowerLoss{})
	}
	if c.power > 0 {
		c.power--
	}
	f()
}

type simSizes struct{ events, faults, activity, vehicles, places, gnss, conditions, vus int }

func simPickSizes(p *simPen, gen int, small bool) simSizes {
	s := simSizes{events: p.in(6, 12), faults: p.in(12, 24), activity: p.in(5544, 13776), vehicles: p.in(84, 200), places: p.in(84, 112), gnss: p.in(252, 336), conditions: p.in(56, 112), vus: p.in(84, 200)}
	if small {
		// Smaller than any real card: wraps come sooner.
		s = simSizes{events: p.in(1, 3), faults: p.in(1, 3), activity: p.in(150, 900), vehicles: p.in(2, 9), places: p.in(2, 9), gnss: p.in(2, 9), conditions: p.in(2, 9), vus: p.in(2, 9)}
	} else if p.one(4) {
		// Larger than today's cards, within what the cards can say of themselves.
		for n := 1 + p.n(3); n > 0; n-- {
			switch p.n(8) {
			case 0:
				s.events = p.in(12, 200)
			case 1:
				s.faults = p.in(24, 255)
			case 2:
				s.activity = p.in(13776, 65000)
			case 3:
				s.vehicles = p.in(200, 1300)
			case 4:
				s.places = p.in(112, []int{255, 3000}[gen-1])
			case 5:
				s.gnss = p.in(336, 3600)
			case 6:
				s.conditions = p.in(112, 3000)
			case 7:
				s.vus = p.in(200, 6000)
			}
		}
	}
	return s
}

func simBlankEvent() ([]byte, proto.Message) {
	pl, _ := simNoPlate.enc()
	b := append(make([]byte, 9), pl...)
	m := &cardv1.EventsData_Record{}
	m.SetValid(false)
	m.SetRawData(bytes.Clone(b))
	return b, m
}

func simBlankFault() ([]byte, proto.Message) {
	b, _ := simBlankEvent()
	m := &cardv1.FaultsData_Record{}
	m.SetValid(false)
	m.SetRawData(bytes.Clone(b))
	return b, m
}

func simVehicle(gen, from, to int, first, last uint32, pl simPlate, counter int, vin string) ([]byte, proto.Message) {
	b := append(simU24(from), simU24(to)...)
	tb, t1 := simTime(first)
	b = append(b, tb...)
	tb, t2 := simTime(last)
	b = append(b, tb...)
	pb, pm := pl.enc()
	b = append(b, pb...)
	b = append(b, simBCD(counter, 4)...)
	if gen == 1 {
		m := &ddv1.CardVehicleRecord{}
		m.SetVehicleOdometerBeginKm(int32(from))
		m.SetVehicleOdometerEndKm(int32(to))
		m.SetVehicleFirstUse(t1)
		m.SetVehicleLastUse(t2)
		m.SetVehicleRegistration(pm)
		m.SetVuDataBlockCounter(simBCDMsg(counter, 2))
		m.SetRawData(bytes.Clone(b))
		return b, m
	}
	v, _ := simIA5(vin, 17)
	b = append(b, v...)
	m := &ddv1.CardVehicleRecordG2{}
	m.SetVehicleOdometerBeginKm(int32(from))
	m.SetVehicleOdometerEndKm(int32(to))
	m.SetVehicleFirstUse(t1)
	m.SetVehicleLastUse(t2)
	m.SetVehicleRegistration(pm)
	m.SetVuDataBlockCounter(simBCDMsg(counter, 2))
	m.SetVehicleIdentificationNumber(vin)
	m.SetRawData(bytes.Clone(b))
	return b, m
}

type simSpot struct {
	t        uint32
	acc      int
	lat, lon int
}

func (s simSpot) enc() ([]byte, *ddv1.GNSSPlaceRecord) {
	b, t := simTime(s.t)
	b = append(b, byte(s.acc))
	b = append(b, simU24(s.lat)...)
	b = append(b, simU24(s.lon)...)
	m := &ddv1.GNSSPlaceRecord{}
	m.SetTimestamp(t)
	m.SetGnssAccuracy(int32(s.acc))
	g := &ddv1.GeoCoordinates{}
	g.SetLatitude(int32(s.lat))
	g.SetLongitude(int32(s.lon))
	m.SetGeoCoordinates(g)
	return b, m
}

func (p *simPen) spot(t uint32) simSpot {
	return simSpot{t, p.n(100), p.in(-90, 90)*1000 + p.n(600), p.in(-180, 180)*1000 + p.n(600)}
}

var simEntryTypes = []ddv1.EntryTypeDailyWorkPeriod{ddv1.EntryTypeDailyWorkPeriod_BEGIN, ddv1.EntryTypeDailyWorkPeriod_END, ddv1.EntryTypeDailyWorkPeriod_BEGIN_GNSS,
	ddv1.EntryTypeDailyWorkPeriod_END_GNSS, ddv1.EntryTypeDailyWorkPeriod_BEGIN_ITS, ddv1.EntryTypeDailyWorkPeriod_END_ITS}

func simPlace(gen int, t uint32, typ int, n simNation, region byte, odo int, s simSpot) ([]byte, proto.Message) {
	b, tm := simTime(t)
	b = append(b, byte(typ), n.code, region)
	b = append(b, simU24(odo)...)
	if gen == 1 {
		m := &ddv1.PlaceRecord{}
		m.SetEntryTime(tm)
		m.SetEntryTypeDailyWorkPeriod(simEntryTypes[typ])
		m.SetDailyWorkPeriodCountry(n.enum)
		m.SetDailyWorkPeriodRegion([]byte{region})
		m.SetVehicleOdometerKm(int32(odo))
		m.SetRawData(bytes.Clone(b))
		m.SetValid(true)
		return b, m
	}
	gb, gm := s.enc()
	b = append(b, gb...)
	m := &ddv1.PlaceRecordG2{}
	m.SetEntryTime(tm)
	m.SetEntryTypeDailyWorkPeriod(simEntryTypes[typ])
	m.SetDailyWorkPeriodCountry(n.enum)
	m.SetDailyWorkPeriodRegion([]byte{region})
	m.SetVehicleOdometerKm(int32(odo))
	m.SetEntryGnssPlaceRecord(gm)
	m.SetRawData(bytes.Clone(b))
	m.SetValid(true)
	return b, m
}

var simConditionTypes = []ddv1.SpecificConditionType{ddv1.SpecificConditionType_RFU, ddv1.SpecificConditionType_OUT_OF_SCOPE_BEGIN, ddv1.SpecificConditionType_OUT_OF_SCOPE_END,
	ddv1.SpecificConditionType_FERRY_TRAIN_CROSSING_BEGIN, ddv1.SpecificConditionType_FERRY_TRAIN_CROSSING_END}

func simCondition(t uint32, typ int) ([]byte, proto.Message) {
	b, tm := simTime(t)
	b = append(b, byte(typ))
	m := &ddv1.SpecificConditionRecord{}
	m.SetEntryTime(tm)
	m.SetSpecificConditionType(simConditionTypes[typ])
	return b, m
}

func simVuUsed(t uint32, man, dev byte, sw []byte) ([]byte, proto.Message) {
	b, tm := simTime(t)
	b = append(append(b, man, dev), sw...)
	m := &cardv1.VehicleUnitsUsed_Record{}
	m.SetTimestamp(tm)
	m.SetManufacturerCode(int32(man))
	m.SetDeviceId([]byte{dev})
	m.SetVuSoftwareVersion(bytes.Clone(sw))
	return b, m
}

func simGnss(t uint32, s simSpot, odo int) ([]byte, proto.Message) {
	b, tm := simTime(t)
	gb, gm := s.enc()
	b = append(append(b, gb...), simU24(odo)...)
	m := &cardv1.GnssPlaces_Record{}
	m.SetTimestamp(tm)
	m.SetGnssPlaceRecord(gm)
	m.SetVehicleOdometerKm(int32(odo))
	return b, m
}

// simEvType is a code of the data dictionary, section 2.70, and the generation
// from which it exists.
type simEvType struct {
	code byte
	gen  int
	enum ddv1.EventFaultType
}

var simEvTypes = []simEvType{
	{0x00, 1, ddv1.EventFaultType_GENERAL_NO_FURTHER_DETAILS},
	{0x01, 1, ddv1.EventFaultType_GENERAL_INSERTION_OF_NON_VALID_CARD},
	{0x02, 1, ddv1.EventFaultType_GENERAL_CARD_CONFLICT},
	{0x03, 1, ddv1.EventFaultType_GENERAL_TIME_OVERLAP},
	{0x04, 1, ddv1.EventFaultType_GENERAL_DRIVING_WITHOUT_APPROPRIATE_CARD},
	{0x05, 1, ddv1.EventFaultType_GENERAL_CARD_INSERTION_WHILE_DRIVING},
	{0x06, 1, ddv1.EventFaultType_GENERAL_LAST_CARD_SESSION_NOT_CORRECTLY_CLOSED},
	{0x07, 1, ddv1.EventFaultType_GENERAL_OVER_SPEEDING},
	{0x08, 1, ddv1.EventFaultType_GENERAL_POWER_SUPPLY_INTERRUPTION},
	{0x09, 1, ddv1.EventFaultType_GENERAL_MOTION_DATA_ERROR},
	{0x0a, 1, ddv1.EventFaultType_GENERAL_VEHICLE_MOTION_CONFLICT},
	{0x10, 1, ddv1.EventFaultType_VU_SEC_NO_FURTHER_DETAILS},
	{0x11, 1, ddv1.EventFaultType_VU_SEC_MOTION_SENSOR_AUTH_FAILURE},
	{0x12, 1, ddv1.EventFaultType_VU_SEC_TACHOGRAPH_CARD_AUTH_FAILURE},
	{0x13, 1, ddv1.EventFaultType_VU_SEC_UNAUTHORISED_CHANGE_OF_MOTION_SENSOR},
	{0x14, 1, ddv1.EventFaultType_VU_SEC_CARD_DATA_INPUT_INTEGRITY_ERROR},
	{0x15, 1, ddv1.EventFaultType_VU_SEC_STORED_USER_DATA_INTEGRITY_ERROR},
	{0x16, 1, ddv1.EventFaultType_VU_SEC_INTERNAL_DATA_TRANSFER_ERROR},
	{0x17, 1, ddv1.EventFaultType_VU_SEC_UNAUTHORISED_CASE_OPENING},
	{0x18, 1, ddv1.EventFaultType_VU_SEC_HARDWARE_SABOTAGE},
	{0x20, 1, ddv1.EventFaultType_SENSOR_SEC_NO_FURTHER_DETAILS},
	{0x21, 1, ddv1.EventFaultType_SENSOR_SEC_AUTHENTICATION_FAILURE},
	{0x22, 1, ddv1.EventFaultType_SENSOR_SEC_STORED_DATA_INTEGRITY_ERROR},
	{0x23, 1, ddv1.EventFaultType_SENSOR_SEC_INTERNAL_DATA_TRANSFER_ERROR},
	{0x24, 1, ddv1.EventFaultType_SENSOR_SEC_UNAUTHORISED_CASE_OPENING},
	{0x25, 1, ddv1.EventFaultType_SENSOR_SEC_HARDWARE_SABOTAGE},
	{0x0b, 2, ddv1.EventFaultType_GENERAL_TIME_CONFLICT_GNSS_VS_VU},
	{0x0c, 2, ddv1.EventFaultType_GENERAL_COMM_ERROR_REMOTE_COMM_FACILITY},
	{0x0d, 2, ddv1.EventFaultType_GENERAL_ABSENCE_OF_POSITION_INFO_FROM_GNSS},
	{0x0e, 2, ddv1.EventFaultType_GENERAL_COMM_ERROR_EXTERNAL_GNSS_FACILITY},
	{0x0f, 2, ddv1.EventFaultType_GENERAL_GNSS_ANOMALY},
	{0x19, 2, ddv1.EventFaultType_VU_SEC_TAMPER_DETECTION_OF_GNSS},
	{0x1a, 2, ddv1.EventFaultType_VU_SEC_EXTERNAL_GNSS_FACILITY_AUTH_FAILURE},
	{0x1b, 2, ddv1.EventFaultType_VU_SEC_EXTERNAL_GNSS_FACILITY_CERT_EXPIRED},
	{0x1c, 2, ddv1.EventFaultType_VU_SEC_INCONSISTENCY_MOTION_VS_ACTIVITY},
}

var simFaTypes = []simEvType{
	{0x30, 1, ddv1.EventFaultType_FAULT_REC_EQ_NO_FURTHER_DETAILS},
	{0x31, 1, ddv1.EventFaultType_FAULT_REC_EQ_VU_INTERNAL_FAULT},
	{0x32, 1, ddv1.EventFaultType_FAULT_REC_EQ_PRINTER_FAULT},
	{0x33, 1, ddv1.EventFaultType_FAULT_REC_EQ_DISPLAY_FAULT},
	{0x34, 1, ddv1.EventFaultType_FAULT_REC_EQ_DOWNLOADING_FAULT},
	{0x35, 1, ddv1.EventFaultType_FAULT_REC_EQ_SENSOR_FAULT},
	{0x40, 1, ddv1.EventFaultType_FAULT_CARD_NO_FURTHER_DETAILS},
	{0x36, 2, ddv1.EventFaultType_FAULT_REC_EQ_INTERNAL_GNSS_RECEIVER},
	{0x37, 2, ddv1.EventFaultType_FAULT_REC_EQ_EXTERNAL_GNSS_FACILITY},
	{0x38, 2, ddv1.EventFaultType_FAULT_REC_EQ_REMOTE_COMM_FACILITY},
	{0x39, 2, ddv1.EventFaultType_FAULT_REC_EQ_ITS_INTERFACE},
	{0x3a, 2, ddv1.EventFaultType_FAULT_REC_EQ_INTERNAL_SENSOR_FAULT},
}

func simOfGen(ts []simEvType, gen int) []simEvType {
	for i, t := range ts {
		if t.gen > gen {
			return ts[:i]
		}
	}
	return ts
}

// simNewCard issues a card.
func simNewCard(r *simrt.Run, l string, gens int, small bool) *simCardLife {
	p := &simPen{s: uint64(r.Bits(l + "/pen"))}
	c := &simCardLife{r: r, p: p, power: -1, now: p.epoch(), odo: p.odo(), d: &simDriver{N: p.n(8)}}
	for gen := 1; gen <= 2; gen++ {
		if gens&gen == 0 {
			continue
		}
		z := simPickSizes(p, gen, small)
		d := &simDF{gen: gen, v2: gen == 2 && p.one(2), nEv: z.events, nFa: z.faults}
		d.nation, d.authority, d.surname, d.first, d.licAuth = p.nation(), p.word(), p.word(), p.word(), p.word()
		types := 6
		if gen == 2 {
			types = 11
		}
		// Memory that was never written holds the default values or nothing but zeros.
		zeros := r.Chance(fmt.Sprintf("%s/zero memory%d", l, gen), 1, 3)
		unused := func(f func() ([]byte, proto.Message)) func() ([]byte, proto.Message) {
			return func() ([]byte, proto.Message) {
				b, m := f()
				if zeros {
					b = make([]byte, len(b))
					m.(interface{ SetRawData([]byte) }).SetRawData(bytes.Clone(b))
				}
				return b, m
			}
		}
		d.events = simNewStore(0, types*z.events, unused(simBlankEvent))
		d.faults = simNewStore(0, 2*z.faults, unused(simBlankFault))
		d.act = &simActivity{buf: make([]byte, z.activity)}
		d.vehicles = simNewStore(2, z.vehicles, func() ([]byte, proto.Message) { return simVehicle(gen, 0, 0, 0, 0, simNoPlate, 0, "") })
		ptr := gen
		d.places = simNewStore(ptr, z.places, func() ([]byte, proto.Message) { return simPlace(gen, 0, 0, simNoNation, 0, 0, simSpot{}) })
		if gen == 1 {
			d.conditions = simNewStore(0, min(56, z.conditions), func() ([]byte, proto.Message) { return simCondition(0, 0) })
		} else {
			d.conditions = simNewStore(2, z.conditions, func() ([]byte, proto.Message) { return simCondition(0, 0) })
			d.vus = simNewStore(2, z.vus, func() ([]byte, proto.Message) { return simVuUsed(0, 0, 0, make([]byte, 4)) })
			d.gnss = simNewStore(2, z.gnss, func() ([]byte, proto.Message) { return simGnss(0, simSpot{}, 0) })
		}
		d.sessionPlate = simNoPlate
		pl, _ := simNoPlate.enc()
		d.controlRaw = append(make([]byte, 5), append([]byte{0, 0}, append(bytes.Repeat([]byte{' '}, 16), append(pl, make([]byte, 8)...)...)...)...)
		d.controlWant = &cardv1.ControlActivityData{}
		d.controlWant.SetValid(false)
		if zeros {
			d.controlRaw = make([]byte, len(d.controlRaw))
		}
		d.controlWant.SetRawData(bytes.Clone(d.controlRaw))
		const idx = "0123456789ABXYZ"
		d.idxA, d.idxB = idx[p.n(len(idx))], idx[p.n(len(idx))]
		if p.one(2) {
			d.idxA = '0'
		}
		d.identify(c.d.N)
		c.dfs = append(c.dfs, d)
		if gen == 1 {
			c.d.G1 = true
			c.d.CA1 = simCAs(1)[p.n(5)]
			c.d.C1 = simCard1(c.d.CA1, c.d.N)
		} else {
			c.d.G2 = true
			c.d.CA2 = simCAs(2)[p.n(6)]
			c.d.C2 = simCard2(c.d.CA2, c.d.N)
		}
	}
	c.chip()
	if r.Chance(l+"/aged", 1, 4) {
		c.age()
		r.Probe("card with years behind it")
	}
	return c
}

// chip is what the maker of the card wrote.
func (c *simCardLife) chip() {
	p := c.p
	m := &cardv1.Icc{}
	stop := p.n(6)
	m.SetClockStop([]ddv1.ClockStopMode{ddv1.ClockStopMode_NOT_ALLOWED, ddv1.ClockStopMode_ALLOWED_NO_PREFERENCE, ddv1.ClockStopMode_ALLOWED_ONLY_HIGH_LEVEL,
		ddv1.ClockStopMode_ALLOWED_HIGH_LEVEL_PREFERRED, ddv1.ClockStopMode_ALLOWED_ONLY_LOW_LEVEL, ddv1.ClockStopMode_ALLOWED_LOW_LEVEL_PREFERRED}[stop])
	b := []byte{byte(stop)}
	serial := uint32(p.n(1 << 32))
	e := &ddv1.ExtendedSerialNumber{}
	e.SetSerialNumber(int64(serial))
	month, year := p.in(1, 12), p.n(100)
	mm := &ddv1.MonthYear{}
	my := append(simBCD(month, 2), simBCD(year, 2)...)
	mm.SetRawData(bytes.Clone(my))
	mm.SetMonth(int32(month))
	mm.SetYear(int32(2000 + year))
	e.SetMonthYear(mm)
	e.SetType(ddv1.EquipmentType_DRIVER_CARD)
	maker := byte(p.n(256))
	e.SetManufacturerCode(int32(maker))
	b = append(binary.BigEndian.AppendUint32(b, serial), my...)
	b = append(b, 1, maker)
	m.SetCardExtendedSerialNumber(e)
	x, xm := simIA5([]string{"e1-175", "e5 0002", "TEST0001", "E1"}[p.n(4)], 8)
	b = append(b, x...)
	m.SetCardApprovalNumber(xm)
	who := byte(p.n(256))
	b = append(b, who)
	m.SetCardPersonaliserId(int32(who))
	em := &cardv1.Icc_EmbedderIcAssemblerId{}
	x, xm = simIA5([]string{"FI", "D", "SE", "UK"}[p.n(4)], 2)
	b = append(b, x...)
	em.SetCountryCode(xm)
	x, xm = simIA5([]string{"AB", "7", "X9"}[p.n(3)], 2)
	b = append(b, x...)
	em.SetModuleEmbedder(xm)
	info := byte(p.n(256))
	b = append(b, info)
	em.SetManufacturerInformation(int32(info))
	m.SetEmbedderIcAssemblerId(em)
	id := p.bytes(2)
	m.SetIcIdentifier(bytes.Clone(id))
	c.icc, c.iccWant = append(b, id...), m
	i := &cardv1.Ic{}
	c.ic = p.bytes(8)
	i.SetIcSerialNumber(bytes.Clone(c.ic[:4]))
	i.SetIcManufacturingReferences(bytes.Clone(c.ic[4:]))
	c.icWant = i
}

// age fills the card as years of use would have.
func (c *simCardLife) age() {
	p := c.p
	fill := func(s *simStore, one func() ([]byte, proto.Message)) {
		if s == nil || p.one(4) {
			return
		}
		for k := 1 + p.n(min(1200, s.n*3/2+2)); k > 0; k-- {
			c.now += uint32(p.n(3600))
			b, m := one()
			c.record(s, b, m)
		}
	}
	for _, d := range c.dfs {
		fill(d.vehicles, func() ([]byte, proto.Message) {
			return simVehicle(d.gen, c.odo, c.odo+p.n(9), c.now-uint32(p.n(4000)), c.now, p.plate(), p.n(10000), fmt.Sprintf("VIN%014d", p.n(1<<30)))
		})
		fill(d.places, func() ([]byte, proto.Message) {
			return simPlace(d.gen, c.now, p.n(2), p.nation(), byte(p.n(32)), c.odo, p.spot(c.now))
		})
		fill(d.conditions, func() ([]byte, proto.Message) { return simCondition(c.now, 1+p.n(4)) })
		fill(d.vus, func() ([]byte, proto.Message) { return simVuUsed(c.now, byte(p.n(256)), byte(p.n(256)), p.bytes(4)) })
		fill(d.gnss, func() ([]byte, proto.Message) { return simGnss(c.now, p.spot(c.now), c.odo) })
		for k := p.n(40); k > 0; k-- {
			c.event(d, p.one(2), p.n(1000), p.plate())
		}
	}
	for n := p.n(300); n > 0; n-- {
		date := c.now - c.now%86400
		for _, d := range c.dfs {
			if l := d.act.last(); l != nil && l.date >= date {
				continue
			}
			c.newDay(d, date, simChange{out: true})
			at := 0
			for k := p.n(12); k > 0; k-- {
				at += 1 + p.n(100)
				if l := d.act.last(); l != nil && l.date == date {
					c.change(d, simChange{act: p.n(4), min: min(at, 1439)})
				}
			}
		}
		c.now = date + 86400*uint32(p.in(1, 3)) + 60
	}
}

// record writes a record of a cyclic file and then moves its pointer.
func (c *simCardLife) record(s *simStore, b []byte, m proto.Message) {
	k := s.next()
	c.cmd(func() { s.raw[k], s.want[k] = b, m })
	c.cmd(func() { s.cur = k; s.used++ })
}

// rewrite changes the newest record.
func (c *simCardLife) rewrite(s *simStore, b []byte, m proto.Message) {
	c.cmd(func() { s.raw[s.cur], s.want[s.cur] = b, m })
}

// evict frees storage until n more bytes fit behind the newest record.
func (c *simCardLife) evict(a *simActivity, n int) {
	for len(a.days) > 1 && a.usedBytes()+n > len(a.buf) {
		next := a.days[1]
		// The record after the oldest becomes the oldest, which has no predecessor.
		c.cmd(func() {
			a.put(next.pos, simU16(0))
			next.prev = 0
			a.days = a.days[1:]
		})
		c.cmd(func() { a.oldest = next.pos })
	}
}

// change records one change of activity.
func (c *simCardLife) change(d *simDF, ch simChange) {
	a := d.act
	day := a.last()
	if a.usedBytes()+2 > len(a.buf) && len(a.days) == 1 {
		return
	}
	c.evict(a, 2)
	if a.usedBytes()+2 > len(a.buf) {
		return
	}
	end := day.pos + day.len()
	c.cmd(func() { a.put(end, ch.bytes()) })
	c.cmd(func() {
		day.changes = append(day.changes, ch)
		a.put(day.pos+2, simU16(day.len()))
	})
	if c.p.one(3) {
		km := min(9999, day.km+c.p.n(300))
		c.cmd(func() { day.km = km; a.put(day.pos+10, simU16(km)) })
	}
}

// newDay starts a record for a day.
func (c *simCardLife) newDay(d *simDF, date uint32, first simChange) {
	a := d.act
	n := &simDay{date: date, changes: []simChange{first}, counter: 1}
	if l := a.last(); l != nil {
		n.prev, n.counter, n.pos = l.len(), (l.counter+1)%10000, (l.pos+l.len())%len(a.buf)
	} else {
		n.pos = 0
	}
	c.evict(a, n.len())
	if l := a.last(); l != nil && l.len()+n.len() > len(a.buf) {
		return
	}
	b := append(n.header(), first.bytes()...)
	if len(a.days) == 0 {
		// The pointers of an empty storage point here already.
		c.cmd(func() {
			a.put(n.pos, b)
			a.days = append(a.days, n)
		})
		return
	}
	// The record is written in one or two commands, then the pointer moves.
	if k := c.p.n(2 * len(b)); k < len(b) {
		c.cmd(func() { a.put(n.pos, b[:k]) })
	}
	c.cmd(func() { a.put(n.pos, b) })
	c.cmd(func() {
		a.newest = n.pos
		a.days = append(a.days, n)
	})
}

// session is one insertion of the card into a vehicle unit.
func (c *simCardLife) session(days, changes int) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(simPowerLoss); !is {
				panic(e)
			}
			c.lost++
			c.power = -1
			ok = false
		}
	}()
	p := c.p
	vuGen := 2
	if p.one(4) {
		vuGen = 1
	}
	plate, vin := p.plate(), fmt.Sprintf("VIN%014d", p.n(1<<30))
	var dfs []*simDF
	for _, d := range c.dfs {
		if d.gen <= vuGen {
			dfs = append(dfs, d)
		}
	}
	start, from := c.now, c.odo
	each := func(f func(d *simDF)) {
		for _, d := range dfs {
			f(d)
		}
	}
	counter := p.n(10000)
	each(func(d *simDF) {
		b, m := simVehicle(d.gen, from, from, start, start, plate, counter, vin)
		c.record(d.vehicles, b, m)
		c.cmd(func() { d.sessionTime, d.sessionPlate = start, plate })
		if d.vus != nil {
			sw := p.bytes(4)
			if !p.one(4) {
				sw = []byte([]string{"0102", "1.0 ", "07  ", " 12 ", "\x00\x00\x01\x02", "1\x00\x00\x00"}[p.n(6)])
			}
			b, m := simVuUsed(start, byte(p.n(256)), byte(p.n(256)), sw)
			c.record(d.vus, b, m)
		}
	})
	if !p.one(3) {
		c.place(dfs, []int{0, 2, 4}[p.n(3)])
	}
	for k := 0; k < days; k++ {
		date := c.now - c.now%86400
		first := simChange{co: p.one(6), crew: p.one(5), out: p.one(3), act: p.n(4)}
		if p.one(2) {
			first = simChange{} // at rest since midnight, card in the slot
		}
		each(func(d *simDF) {
			if l := d.act.last(); l == nil || l.date < date {
				c.newDay(d, date, first)
			}
		})
		// Changes of this day come after those already there.
		at := int(c.now%86400) / 60
		each(func(d *simDF) {
			if l := d.act.last(); l != nil && len(l.changes) > 0 {
				at = max(at, l.changes[len(l.changes)-1].min)
			}
		})
		for i := 0; i < changes && at < 1438; i++ {
			at += 1 + p.n(max(1, min(90, (1438-at)/2)))
			ch := simChange{co: p.one(8), crew: p.one(6), act: p.n(4), min: min(at, 1439)}
			each(func(d *simDF) {
				if l := d.act.last(); l != nil && l.date == date {
					c.change(d, ch)
				}
			})
			if p.one(12) {
				c.extra(dfs, plate)
			}
			c.odo = min(simOdoMax, c.odo+p.n(40))
		}
		if k < days-1 {
			c.now = date + 86400
		} else {
			c.now = date + uint32(min(at+1, 1439)*60)
		}
	}
	// Withdrawal.
	each(func(d *simDF) {
		b, m := simVehicle(d.gen, from, c.odo, start, c.now, plate, counter, vin)
		c.rewrite(d.vehicles, b, m)
	})
	if !p.one(3) {
		c.place(dfs, []int{1, 3, 5}[p.n(3)])
	}
	each(func(d *simDF) { c.cmd(func() { d.sessionTime = 0; d.sessionPlate = simNoPlate }) })
	return true
}

func (c *simCardLife) place(dfs []*simDF, typ int) {
	p := c.p
	n, region, spot := p.nation(), byte(p.n(32)), p.spot(c.now)
	for _, d := range dfs {
		t := typ
		if d.gen == 1 {
			t = typ & 1
		}
		b, m := simPlace(d.gen, c.now, t, n, region, c.odo, spot)
		c.record(d.places, b, m)
	}
}

// extra is one of the rarer things that are recorded.
func (c *simCardLife) extra(dfs []*simDF, plate simPlate) {
	p := c.p
	kind, typ := p.n(6), 1+p.n(4)
	spot, ev, fa := p.spot(c.now), p.n(1000), p.n(1000)
	for _, d := range dfs {
		switch kind {
		case 0:
			b, m := simCondition(c.now, typ)
			c.record(d.conditions, b, m)
		case 1:
			if d.gnss != nil {
				b, m := simGnss(c.now, spot, c.odo)
				c.record(d.gnss, b, m)
			}
		case 2:
			c.event(d, true, ev, plate)
		case 3:
			c.event(d, false, fa, plate)
		case 4:
			now := c.now
			c.cmd(func() { d.download = now })
		case 5:
			ct, ctm := simControlType(byte(p.n(256)))
			b := append(ct, binary.BigEndian.AppendUint32(nil, c.now)...)
			officer, om := p.holder(3).enc()
			b = append(b, officer...)
			pl, plm := plate.enc()
			b = append(b, pl...)
			from := c.now - uint32(p.n(1<<22))
			b1, t1 := simTime(from)
			b2, t2 := simTime(c.now)
			b = append(append(b, b1...), b2...)
			m := &cardv1.ControlActivityData{}
			m.SetValid(true)
			m.SetControlType(ctm)
			m.SetControlTime(t2)
			og := &ddv1.FullCardNumberAndGeneration{}
			og.SetFullCardNumber(om)
			og.SetGeneration(ddv1.Generation_GENERATION_1) // the record does not say; not compared
			m.SetControlCardNumber(og)
			m.SetControlVehicleRegistration(plm)
			m.SetControlDownloadPeriodBegin(t1)
			m.SetControlDownloadPeriodEnd(t2)
			c.cmd(func() { d.controlRaw, d.controlWant = b, m })
		}
	}
}

func (c *simCardLife) event(d *simDF, event bool, typ int, plate simPlate) {
	s, ts, per, next := d.faults, simFaTypes, d.nFa, &d.faNext
	if event {
		s, ts, per, next = d.events, simEvTypes, d.nEv, &d.evNext
	}
	ts = simOfGen(ts, d.gen)
	t := ts[typ%len(ts)]
	typ = typ % len(ts) % (s.n / per) // the records of a type lie together
	end := c.now + uint32(c.p.n(3600))
	k := typ*per + next[typ]%per
	b := []byte{t.code}
	tb, t1 := simTime(c.now)
	b = append(b, tb...)
	tb, t2 := simTime(end)
	b = append(b, tb...)
	pb, pm := plate.enc()
	b = append(b, pb...)
	var m proto.Message
	if event {
		e := &cardv1.EventsData_Record{}
		e.SetValid(true)
		e.SetEventType(t.enum)
		e.SetEventBeginTime(t1)
		e.SetEventEndTime(t2)
		e.SetEventVehicleRegistration(pm)
		m = e
	} else {
		e := &cardv1.FaultsData_Record{}
		e.SetValid(true)
		e.SetFaultType(t.enum)
		e.SetFaultBeginTime(t1)
		e.SetFaultEndTime(t2)
		e.SetFaultVehicleRegistration(pm)
		m = e
	}
	c.cmd(func() { s.raw[k], s.want[k] = b, m; next[typ]++ })
}

// ---------------------------------------------------------------- download

// simSig makes up a signature: the product does not check signatures of files.
func (c *simCardLife) sig(gen int, val []byte) []byte {
	n := 128
	if gen == 2 {
		n = []int{64, 96, 128, 132}[c.d.N&3]
	}
	b := make([]byte, n)
	h := simrt.HashBytes(val)
	for i := range b {
		b[i] = byte(simrt.Mix(h, uint64(i)))
	}
	return b
}

// simFileMsg is a file on the card and what it means (nil: not judged).
type simFileMsg struct {
	simRec
	sig  []byte
	name string
	want proto.Message
}

// files is the card as a download tool reads it.
func (c *simCardLife) files() []simFileMsg {
	out := []simFileMsg{{simRec{0x0002, 0, c.icc}, nil, "ICC", c.iccWant}, {simRec{0x0005, 0, c.ic}, nil, "IC", c.icWant}}
	for _, d := range c.dfs {
		app := byte(0)
		if d.gen == 2 {
			app = 2
		}
		add := func(fid uint16, name string, val []byte, signed bool, want func(sig []byte) proto.Message) {
			f := simFileMsg{simRec: simRec{fid, app, val}, name: fmt.Sprintf("G%d.%s", d.gen, name)}
			if signed && !c.noSig {
				f.sig = c.sig(d.gen, val)
			}
			if want != nil {
				f.want = want(f.sig)
			}
			out = append(out, f)
		}
		ai := []byte{1, 0, 0, byte(d.nEv), byte(d.nFa)}
		if d.gen == 2 {
			ai[1] = 1
			if d.v2 {
				ai[2] = 1
			}
		}
		ai = append(ai, simU16(len(d.act.buf))...)
		ai = append(ai, simU16(d.vehicles.n)...)
		if d.gen == 1 {
			ai = append(ai, byte(d.places.n))
		} else {
			for _, n := range []int{d.places.n, d.gnss.n, d.conditions.n, d.vus.n} {
				ai = append(ai, simU16(n)...)
			}
		}
		add(0x0501, "Application_Identification", ai, true, func(sig []byte) proto.Message {
			v := &ddv1.CardStructureVersion{}
			v.SetRawData(ai[1:3])
			v.SetMajor(int32(ai[1]))
			v.SetMinor(int32(ai[2]))
			if d.gen == 1 {
				m := &cardv1.ApplicationIdentification{}
				m.SetCardType(cardv1.CardType_DRIVER_CARD)
				m.SetTypeOfTachographCardId(ddv1.EquipmentType_DRIVER_CARD)
				m.SetCardStructureVersion(v)
				o := &cardv1.ApplicationIdentification_Driver{}
				o.SetEventsPerTypeCount(int32(d.nEv))
				o.SetFaultsPerTypeCount(int32(d.nFa))
				o.SetActivityStructureLength(int32(len(d.act.buf)))
				o.SetCardVehicleRecordsCount(int32(d.vehicles.n))
				o.SetCardPlaceRecordsCount(int32(d.places.n))
				m.SetDriver(o)
				if sig != nil {
					m.SetSignature(sig)
				}
				return m
			}
			m := &cardv1.ApplicationIdentificationG2{}
			m.SetCardType(cardv1.CardType_DRIVER_CARD)
			m.SetTypeOfTachographCardId(ddv1.EquipmentType_DRIVER_CARD)
			m.SetCardStructureVersion(v)
			o := &cardv1.ApplicationIdentificationG2_Driver{}
			o.SetEventsPerTypeCount(int32(d.nEv))
			o.SetFaultsPerTypeCount(int32(d.nFa))
			o.SetActivityStructureLength(int32(len(d.act.buf)))
			o.SetCardVehicleRecordsCount(int32(d.vehicles.n))
			o.SetCardPlaceRecordsCount(int32(d.places.n))
			o.SetGnssAdRecordsCount(int32(d.gnss.n))
			o.SetSpecificConditionRecordsCount(int32(d.conditions.n))
			o.SetCardVehicleUnitRecordsCount(int32(d.vus.n))
			m.SetDriver(o)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		if d.v2 {
			n := []int{8, 1120 + c.d.N, 1624 - c.d.N, 336 + 2*c.d.N, 3072}
			var b []byte
			for _, x := range n {
				b = append(b, simU16(x)...)
			}
			add(0x0525, "Application_Identification_V2", b, true, func(sig []byte) proto.Message {
				m := &cardv1.ApplicationIdentificationV2{}
				m.SetCardType(cardv1.CardType_DRIVER_CARD)
				o := &cardv1.ApplicationIdentificationV2_Driver{}
				o.SetLengthOfFollowingData(int32(n[0]))
				o.SetBorderCrossingRecordsCount(int32(n[1]))
				o.SetLoadUnloadRecordsCount(int32(n[2]))
				o.SetLoadTypeEntryRecordsCount(int32(n[3]))
				o.SetVuConfigurationLengthRange(int32(n[4]))
				m.SetDriver(o)
				if sig != nil {
					m.SetSignature(sig)
				}
				return m
			})
		}
		if d.gen == 1 {
			add(0xc100, "Card_Certificate", c.d.C1, false, nil)
			add(0xc108, "CA_Certificate", c.d.CA1.Bytes, false, nil)
		} else {
			if c.d.N&1 == 0 {
				add(0xc100, "CardMA_Certificate", simCard2(c.d.CA2, c.d.N^2), false, nil)
			}
			add(0xc101, "CardSignCertificate", c.d.C2, false, nil)
			add(0xc108, "CA_Certificate", c.d.CA2.Bytes, false, nil)
			if c.d.N&2 == 0 {
				add(0xc109, "Link_Certificate", simCAs(2)[c.d.N%6].Bytes, false, nil)
			}
		}
		add(0x0520, "Identification", d.idBytes, true, func(sig []byte) proto.Message {
			m := proto.CloneOf(d.idWant)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		dl, dm := simTime(d.download)
		add(0x050e, "Card_Download", dl, false, func([]byte) proto.Message {
			m := &cardv1.CardDownloadDriver{}
			m.SetTimestamp(dm)
			return m
		})
		lb, lm := d.licence()
		add(0x0521, "Driving_Licence_Info", lb, true, func(sig []byte) proto.Message {
			if sig != nil {
				lm.SetSignature(sig)
			}
			return lm
		})
		add(0x0502, "Events_Data", d.events.bytes(), true, func(sig []byte) proto.Message {
			m := &cardv1.EventsData{}
			var rs []*cardv1.EventsData_Record
			for _, w := range d.events.want {
				rs = append(rs, w.(*cardv1.EventsData_Record))
			}
			m.SetEvents(rs)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		add(0x0503, "Faults_Data", d.faults.bytes(), true, func(sig []byte) proto.Message {
			m := &cardv1.FaultsData{}
			var rs []*cardv1.FaultsData_Record
			for _, w := range d.faults.want {
				rs = append(rs, w.(*cardv1.FaultsData_Record))
			}
			m.SetFaults(rs)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		add(0x0504, "Driver_Activity_Data", d.act.bytes(), true, func(sig []byte) proto.Message {
			m := d.act.msg()
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		vb := d.vehicles.bytes()
		add(0x0505, "Vehicles_Used", vb, true, func(sig []byte) proto.Message {
			if d.gen == 1 {
				m := &cardv1.VehiclesUsed{}
				m.SetNewestRecordIndex(int32(d.vehicles.cur))
				m.SetRawData(vb)
				var rs []*ddv1.CardVehicleRecord
				for _, w := range d.vehicles.want {
					rs = append(rs, w.(*ddv1.CardVehicleRecord))
				}
				m.SetRecords(rs)
				if sig != nil {
					m.SetSignature(sig)
				}
				return m
			}
			m := &cardv1.VehiclesUsedG2{}
			m.SetNewestRecordIndex(int32(d.vehicles.cur))
			m.SetRawData(vb)
			var rs []*ddv1.CardVehicleRecordG2
			for _, w := range d.vehicles.want {
				rs = append(rs, w.(*ddv1.CardVehicleRecordG2))
			}
			m.SetRecords(rs)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		pb := d.places.bytes()
		add(0x0506, "Places", pb, true, func(sig []byte) proto.Message {
			if d.gen == 1 {
				m := &cardv1.Places{}
				m.SetNewestRecordIndex(int32(d.places.cur))
				m.SetRawData(pb)
				var rs []*ddv1.PlaceRecord
				for _, w := range d.places.want {
					rs = append(rs, w.(*ddv1.PlaceRecord))
				}
				m.SetRecords(rs)
				if sig != nil {
					m.SetSignature(sig)
				}
				return m
			}
			m := &cardv1.PlacesG2{}
			m.SetNewestRecordIndex(int32(d.places.cur))
			m.SetRawData(pb)
			var rs []*ddv1.PlaceRecordG2
			for _, w := range d.places.want {
				rs = append(rs, w.(*ddv1.PlaceRecordG2))
			}
			m.SetRecords(rs)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		ub, um := simTime(d.sessionTime)
		pl, pm := d.sessionPlate.enc()
		add(0x0507, "Current_Usage", append(ub, pl...), true, func(sig []byte) proto.Message {
			m := &cardv1.CurrentUsage{}
			m.SetSessionOpenTime(um)
			m.SetSessionOpenVehicle(pm)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		add(0x0508, "Control_Activity_Data", d.controlRaw, true, func(sig []byte) proto.Message {
			m := proto.CloneOf(d.controlWant)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		cb := d.conditions.bytes()
		add(0x0522, "Specific_Conditions", cb, true, func(sig []byte) proto.Message {
			var rs []*ddv1.SpecificConditionRecord
			for _, w := range d.conditions.want {
				rs = append(rs, w.(*ddv1.SpecificConditionRecord))
			}
			if d.gen == 1 {
				m := &cardv1.SpecificConditions{}
				m.SetRawData(cb)
				m.SetRecords(rs)
				if sig != nil {
					m.SetSignature(sig)
				}
				return m
			}
			m := &cardv1.SpecificConditionsG2{}
			m.SetNewestRecordIndex(int32(d.conditions.cur))
			m.SetRawData(cb)
			m.SetRecords(rs)
			if sig != nil {
				m.SetSignature(sig)
			}
			return m
		})
		if d.gen == 2 {
			add(0x0523, "VehicleUnits_Used", d.vus.bytes(), true, func(sig []byte) proto.Message {
				m := &cardv1.VehicleUnitsUsed{}
				m.SetVehicleUnitPointerNewestRecord(int32(d.vus.cur))
				var rs []*cardv1.VehicleUnitsUsed_Record
				for _, w := range d.vus.want {
					rs = append(rs, w.(*cardv1.VehicleUnitsUsed_Record))
				}
				m.SetRecords(rs)
				if sig != nil {
					m.SetSignature(sig)
				}
				return m
			})
			add(0x0524, "GNSS_Places", d.gnss.bytes(), true, func(sig []byte) proto.Message {
				m := &cardv1.GnssPlaces{}
				m.SetNewestRecordIndex(int32(d.gnss.cur))
				var rs []*cardv1.GnssPlaces_Record
				for _, w := range d.gnss.want {
					rs = append(rs, w.(*cardv1.GnssPlaces_Record))
				}
				m.SetRecords(rs)
				if sig != nil {
					m.SetSignature(sig)
				}
				return m
			})
		}
	}
	return out
}

func (d *simDF) identify(n int) {
	id, im := simIA5(fmt.Sprintf("D%013d", 7000+n), 14)
	if n == 3 {
		id, im = simIA5("AB 12", 14)
	}
	b := append([]byte{d.nation.code}, id...)
	di := &ddv1.DriverIdentification{}
	di.SetDriverIdentificationNumber(im)
	b1, m1 := simIA5(string(d.idxA), 1)
	b2, m2 := simIA5(string(d.idxB), 1)
	b = append(append(b, b1...), b2...)
	di.SetCardReplacementIndex(m1)
	di.SetCardRenewalIndex(m2)
	k := &cardv1.Identification_Card{}
	k.SetCardIssuingMemberState(d.nation.enum)
	k.SetDriverIdentification(di)
	t, tm := simText(d.authority, 35)
	b = append(b, t...)
	k.SetCardIssuingAuthorityName(tm)
	var ts []*timestamppb.Timestamp
	for i := range uint32(3) {
		x, m := simTime(1500000000 + i*12345678 + uint32(n))
		b, ts = append(b, x...), append(ts, m)
	}
	k.SetCardIssueDate(ts[0])
	k.SetCardValidityBegin(ts[1])
	k.SetCardExpiryDate(ts[2])
	h := &cardv1.Identification_DriverCardHolder{}
	t, tm = simText(d.surname, 35)
	b = append(b, t...)
	h.SetCardHolderSurname(tm)
	t, tm = simText(d.first, 35)
	b = append(b, t...)
	h.SetCardHolderFirstNames(tm)
	dt, dm := simDate(1970+n, 1+n, 28)
	b = append(b, dt...)
	h.SetCardHolderBirthDate(dm)
	l, lm := simIA5("sv", 2)
	b = append(b, l...)
	h.SetCardHolderPreferredLanguage(lm)
	m := &cardv1.Identification{}
	m.SetCardType(cardv1.CardType_DRIVER_CARD)
	m.SetCard(k)
	m.SetDriverCardHolder(h)
	d.idBytes, d.idWant = b, m
}

func (d *simDF) licence() ([]byte, *cardv1.DrivingLicenceInfo) {
	b, am := simText(d.licAuth, 35)
	b = append(b, d.nation.code)
	n, nm := simIA5("LIC-0042", 16)
	m := &cardv1.DrivingLicenceInfo{}
	m.SetDrivingLicenceIssuingAuthority(am)
	m.SetDrivingLicenceIssuingNation(d.nation.enum)
	m.SetDrivingLicenceNumber(nm)
	return append(b, n...), m
}

// simSeq is a file as the records of its download: data, then the signature.
func (f simFileMsg) recs() []simRec {
	if f.sig == nil {
		return []simRec{f.simRec}
	}
	return []simRec{f.simRec, {f.fid, f.app | 1, f.sig}}
}

func simJoin(fs []simFileMsg) (recs []simRec) {
	for _, f := range fs {
		recs = append(recs, f.recs()...)
	}
	return recs
}

// live lets a card live.
func (c *simCardLife) live(l string, sessions, changes int) {
	r := c.r
	for i := 0; i < sessions; i++ {
		c.power = -1
		if r.Chance(l+"/power", 1, 6) {
			c.power = r.Pos(l+"/commands", 60)
			r.Fault("card withdrawn or power lost while it was written")
		}
		days := 1
		if c.p.one(4) {
			days = c.p.in(2, 4)
		}
		c.session(days, c.p.n(changes+1))
		// until the next insertion
		switch c.p.n(3) {
		case 0:
			c.now += uint32(60 * c.p.in(1, 200))
		case 1:
			c.now += uint32(3600 * c.p.in(6, 16))
		default:
			c.now += uint32(86400 * c.p.in(1, 12))
		}
	}
}
