package tachograph_test

import (
	"bytes"
	"fmt"
	"simrt"
	"sort"
	"strings"

	"github.com/way-platform/tachograph-go"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// C27: a card file is read, corrected here and there, saved and read again, in
// rounds.

func init() { simScenarios["C27"] = simrt.Scenario{Run: simC27} }

// simField is one value of a file: which field of which message.
type simField struct {
	path string                                            // without positions
	list func(root protoreflect.Message) protoreflect.List // the records it is among
	at   string
	ef   string
	fd   protoreflect.FieldDescriptor
	get  func(root protoreflect.Message) protoreflect.Message
}

// simFields finds the values of a file that a user may edit.
// days tells whether the daily activities are among them.
func simFields(f *tachographv1.File, days bool) map[string][]simField {
	out := map[string][]simField{}
	var walk func(path, at, ef string, m protoreflect.Message, get func(protoreflect.Message) protoreflect.Message, list func(protoreflect.Message) protoreflect.List, depth int)
	walk = func(path, at, ef string, m protoreflect.Message, get func(protoreflect.Message) protoreflect.Message, list func(protoreflect.Message) protoreflect.List, depth int) {
		fds := m.Descriptor().Fields()
		if v := fds.ByName("valid"); v != nil && v.Kind() == protoreflect.BoolKind && !m.Get(v).Bool() {
			return
		}
		for i := 0; i < fds.Len(); i++ {
			fd := fds.Get(i)
			p := path + "." + string(fd.Name())
			e := ef
			switch n := string(fd.Name()); {
			case strings.HasSuffix(p, ".identification.card.owner_identification"):
				continue // a driver card has none: the file is damaged
			case n == "raw_data", strings.Contains(n, "certificate"), strings.HasPrefix(n, "application_identification"), n == "driver_activity_data" && !days:
				continue
			case depth == 1 && n != "tachograph" && n != "tachograph_g2", depth == 2 && strings.Contains(path, "tachograph"):
				e = p
			}
			switch {
			case fd.IsList() && fd.Message() != nil:
				l := m.Get(fd).List()
				for j := 0; j < l.Len(); j++ {
					walk(p, fmt.Sprintf("%s.%s[%d]", at, fd.Name(), j), e, l.Get(j).Message(), func(r protoreflect.Message) protoreflect.Message {
						return get(r).Mutable(fd).List().Get(j).Message()
					}, func(r protoreflect.Message) protoreflect.List { return get(r).Mutable(fd).List() }, depth+1)
				}
			case fd.IsList():
			case simEditable(p, fd) != "":
				if !m.Has(fd) && (fd.Kind() == protoreflect.BytesKind || fd.Message() != nil && fd.Message().Name() != "Timestamp") {
					continue
				}
				out[p] = append(out[p], simField{p, list, at + "." + string(fd.Name()), e, fd, get})
			case fd.Message() != nil:
				if m.Has(fd) {
					walk(p, at+"."+string(fd.Name()), e, m.Get(fd).Message(), func(r protoreflect.Message) protoreflect.Message {
						return get(r).Mutable(fd).Message()
					}, list, depth+1)
				}
			}
		}
	}
	walk("", "", "", f.ProtoReflect(), func(r protoreflect.Message) protoreflect.Message { return r }, nil, 0)
	return out
}

// simEditable tells what kind of value a field holds: "" if none that is
// edited here.
func simEditable(path string, fd protoreflect.FieldDescriptor) string {
	n := string(fd.Name())
	switch {
	case fd.Message() != nil:
		switch fd.Message().Name() {
		case "Timestamp":
			return "time"
		case "StringValue":
			return "text"
		case "Ia5StringValue":
			return "ia5"
		case "BcdString":
			return "bcd"
		case "Date":
			return "date"
		}
	case fd.Kind() == protoreflect.EnumKind && strings.HasSuffix(path, ".card_extended_serial_number.type"):
		return "enum"
	case fd.Kind() == protoreflect.EnumKind:
		switch n {
		case "nation", "daily_work_period_country", "card_issuing_member_state", "driving_licence_issuing_nation",
			"entry_type_daily_work_period", "slot", "clock_stop", "activity", "specific_condition_type", "event_type", "fault_type":
			return "enum"
		}
	case strings.HasSuffix(n, "_odometer_km") || strings.HasPrefix(n, "vehicle_odometer_"):
		return "odometer"
	case n == "activity_day_distance":
		return "distance"
	case fd.Kind() == protoreflect.BoolKind && (strings.Contains(path, ".activity_change_info.") || strings.Contains(path, ".control_type.")):
		return "bool"
	case n == "time_of_change_minutes":
		return "minutes"
	case n == "newest_record_index", n == "vehicle_unit_pointer_newest_record":
		return "pointer"
	case n == "month", n == "year":
		return "month"
	case n == "gnss_accuracy", n == "manufacturer_information", n == "card_personaliser_id" && fd.Kind() == protoreflect.Int32Kind:
		return "byte"
	case n == "latitude", n == "longitude":
		return "angle"
	case fd.Kind() == protoreflect.BytesKind:
		switch n {
		case "signature", "daily_work_period_region", "ic_serial_number", "ic_manufacturing_references", "ic_identifier", "card_personaliser_id", "vu_software_version", "device_id", "manufacturer_code", "value":
			return "bytes"
		}
	case fd.Kind() == protoreflect.Int32Kind && (n == "device_id" || n == "manufacturer_code"):
		return "byte"
	case n == "vehicle_identification_number":
		return "vin"
	case n == "serial_number" && fd.Kind() != protoreflect.MessageKind:
		return "serial"
	}
	return ""
}

// simEnums are the values of an enumeration that have a code on the card.
func simEnums(fd protoreflect.FieldDescriptor) (out []protoreflect.EnumNumber) {
	vs := fd.Enum().Values()
	for i := 0; i < vs.Len(); i++ {
		if o, ok := vs.Get(i).Options().(*descriptorpb.EnumValueOptions); ok && proto.HasExtension(o, ddv1.E_ProtocolEnumValue) {
			out = append(out, vs.Get(i).Number())
		}
	}
	return out
}

// simPut edits one value. It tells what it has written.
func simPut(p *simPen, f simField, root protoreflect.Message) string {
	m := f.get(root)
	if strings.Contains(f.path, ".activity_change_info.") {
		// All zeros and all ones are no change.
		if fd := m.Descriptor().Fields().ByName("time_of_change_minutes"); m.Get(fd).Int() == 0 || m.Get(fd).Int() >= 1440 {
			m.Set(fd, protoreflect.ValueOfInt32(int32(p.in(1, 1439))))
		}
	}
	set := func(v protoreflect.Value) string {
		m.Set(f.fd, v)
		if f.fd.Message() != nil {
			return fmt.Sprint(v.Message().Interface())
		}
		return v.String()
	}
	switch simEditable(f.path, f.fd) {
	case "time":
		if m.Descriptor().Fields().ByName("valid") == nil && p.one(8) {
			m.Clear(f.fd)
			return "none"
		}
		t := []uint32{1, 1<<31 - 1, 1 << 31, 1<<32 - 2, uint32(1 + p.n(1<<32-2)), p.epoch(), p.epoch(), p.epoch()}[p.n(8)]
		return set(protoreflect.ValueOfMessage((&timestamppb.Timestamp{Seconds: int64(t)}).ProtoReflect()))
	case "text":
		old := m.Get(f.fd).Message().Interface().(*ddv1.StringValue)
		_, x := simText(p.word(), int(old.GetLength()))
		x.SetRawData(nil)
		x.ClearRawData()
		return set(protoreflect.ValueOfMessage(x.ProtoReflect()))
	case "ia5":
		old := m.Get(f.fd).Message().Interface().(*ddv1.Ia5StringValue)
		n := int(old.GetLength())
		var s []byte
		for k := 1 + p.n(n); len(s) < k; {
			s = append(s, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[p.n(36)])
		}
		_, x := simIA5(string(s), n)
		x.ClearRawData()
		return set(protoreflect.ValueOfMessage(x.ProtoReflect()))
	case "bcd":
		old := m.Get(f.fd).Message().Interface().(*ddv1.BcdString)
		x := proto.CloneOf(old)
		max := 10
		for i := 1; i < 2*int(old.GetLength()); i++ {
			max *= 10
		}
		x.SetValue(int32([]int{0, max - 1, p.n(max), p.n(max)}[p.n(4)]))
		return set(protoreflect.ValueOfMessage(x.ProtoReflect()))
	case "date":
		_, x := simDate(p.in(1900, 2099), p.in(1, 12), p.in(1, 28))
		x.ClearRawData()
		return set(protoreflect.ValueOfMessage(x.ProtoReflect()))
	case "enum":
		vs := simEnums(f.fd)
		if u := m.Descriptor().Fields().ByName("unrecognized_" + f.fd.Name()); u != nil {
			m.Clear(u)
			if x := f.fd.Enum().Values(); p.one(4) {
				// A code that means nothing yet.
				known := map[int32]bool{}
				var none protoreflect.EnumNumber
				for i := 0; i < x.Len(); i++ {
					if o, ok := x.Get(i).Options().(*descriptorpb.EnumValueOptions); ok && proto.HasExtension(o, ddv1.E_ProtocolEnumValue) {
						known[proto.GetExtension(o, ddv1.E_ProtocolEnumValue).(int32)] = true
					}
					if strings.HasSuffix(string(x.Get(i).Name()), "_UNRECOGNIZED") {
						none = x.Get(i).Number()
					}
				}
				if c := int32(p.n(256)); none != 0 && !known[c] {
					m.Set(u, protoreflect.ValueOfInt32(c))
					set(protoreflect.ValueOfEnum(none))
					return fmt.Sprintf("code %d", c)
				}
			}
		}
		return set(protoreflect.ValueOfEnum(vs[p.n(len(vs))]))
	case "odometer":
		return set(protoreflect.ValueOfInt32(int32(p.odo())))
	case "distance":
		return set(protoreflect.ValueOfInt32(int32([]int{0, 65535, 32768, p.n(65536), p.n(1500)}[p.n(5)])))
	case "bool":
		return set(protoreflect.ValueOfBool(p.one(2)))
	case "minutes":
		return set(protoreflect.ValueOfInt32(int32([]int{1, 1439, 1024, p.in(1, 1439), p.in(1, 1439)}[p.n(5)])))
	case "byte":
		return set(protoreflect.ValueOfInt32(int32([]int{0, 255, p.n(256), p.n(256)}[p.n(4)])))
	case "pointer":
		n := 1
		if l := m.Descriptor().Fields().ByName("records"); l != nil {
			n = m.Get(l).List().Len()
		}
		return set(protoreflect.ValueOfInt32(int32(p.n(max(1, n)))))
	case "month":
		y := protoreflect.ValueOfInt32(int32(p.in(2000, 2099)))
		m.Set(m.Descriptor().Fields().ByName("year"), y)
		v := protoreflect.ValueOfInt32(int32(p.in(1, 12)))
		m.Set(m.Descriptor().Fields().ByName("month"), v)
		return y.String() + "-" + v.String()
	case "angle":
		n := int32([]int{0, 1, -1, 899599, -1799599, 1799599, p.n(1799599), -p.n(1799599)}[p.n(8)])
		return set(protoreflect.ValueOfInt32(n))
	case "bytes":
		b := p.bytes(len(m.Get(f.fd).Bytes()))
		return set(protoreflect.ValueOfBytes(b))
	case "vin":
		var s []byte
		for n := []int{0, 1 + p.n(17), 17, 17}[p.n(4)]; len(s) < n; {
			s = append(s, "0123456789ABCDEFGHJKLMNPRSTUVWXYZ"[p.n(33)])
		}
		return set(protoreflect.ValueOfString(string(s)))
	case "serial":
		return set(protoreflect.ValueOfInt64([]int64{0, 1<<32 - 1, 1 << 31, int64(p.n(1 << 32))}[p.n(4)]))
	}
	panic(f.path)
}

// simUnfit sets a value that its place on the card cannot hold.
func simUnfit(p *simPen, f simField, root protoreflect.Message) string {
	m := f.get(root)
	set := func(v protoreflect.Value) string {
		m.Set(f.fd, v)
		if f.fd.Message() != nil {
			return fmt.Sprint(v.Message().Interface())
		}
		return v.String()
	}
	switch simEditable(f.path, f.fd) {
	case "time":
		return set(protoreflect.ValueOfMessage((&timestamppb.Timestamp{Seconds: int64(p.epoch()), Nanos: int32(p.in(1, 999_999_999))}).ProtoReflect()))
	case "text":
		old := m.Get(f.fd).Message().Interface().(*ddv1.StringValue)
		n := int(old.GetLength())
		_, x := simText(p.word(), n)
		x.ClearRawData()
		switch p.n(3) {
		case 0:
			x.SetValue(strings.Repeat("W", p.in(n+1, n+40)))
		case 1:
			x.SetEncoding(ddv1.Encoding_ISO_8859_1)
			x.SetValue([]string{"Черных", "a Ω", "Łódź", "東京"}[p.n(4)])
		case 2:
			x.SetRawData(append([]byte{1}, p.bytes([]int{0, n - 1, n + 1, 2 * n}[p.n(4)])...))
		}
		return set(protoreflect.ValueOfMessage(x.ProtoReflect()))
	case "ia5":
		if strings.Contains(f.path, ".identification.card.") {
			return "" // cut on purpose
		}
		old := m.Get(f.fd).Message().Interface().(*ddv1.Ia5StringValue)
		n := int(old.GetLength())
		_, x := simIA5(strings.Repeat("7", n), n)
		if p.one(2) {
			x.ClearRawData()
			x.SetValue(strings.Repeat("7", p.in(n+1, 2*n+1)))
		} else {
			x.SetRawData(p.bytes(p.in(n+1, 2*n+1)))
		}
		return set(protoreflect.ValueOfMessage(x.ProtoReflect()))
	case "bcd":
		x := proto.CloneOf(m.Get(f.fd).Message().Interface().(*ddv1.BcdString))
		max := 1
		for i := 0; i < 2*int(x.GetLength()); i++ {
			max *= 10
		}
		x.SetValue(int32([]int{-1, max, -p.n(1 << 30), max + p.n(max)}[p.n(4)]))
		return set(protoreflect.ValueOfMessage(x.ProtoReflect()))
	}
	return ""
}

// simUnfitSave checks that what does not fit is refused rather than saved as
// something else.
func simUnfitSave(r *simrt.Run, p *simPen, good *tachographv1.File, fs map[string][]simField, paths []string) bool {
	f := proto.CloneOf(good)
	var x simField
	v := ""
	for i := 0; v == "" && i < 20; i++ {
		if g := fs[paths[p.n(len(paths))]]; len(g) > 0 {
			x = g[p.n(len(g))]
			v = simUnfit(p, x, f.ProtoReflect())
		}
	}
	if v == "" {
		return true
	}
	r.Logf("unfit %s = %s", x.at, v)
	var out []byte
	var err error
	if !r.Try("save", func() { out, err = tachograph.MarshalFile(f) }) {
		return false
	}
	if err != nil {
		if len(out) > 0 {
			r.Fail("bytes beside an error", "%d bytes were returned beside the error %s", len(out), simShort(err.Error()))
			return false
		}
		return true
	}
	next, err, ok := simRead(r, "reload", bytes.Clone(out))
	if !ok {
		return false
	}
	if err != nil {
		r.Fail("unfit value saved: "+simEditable(x.path, x.fd), "a card with a value that does not fit was saved and cannot be read: %s", simShort(err.Error()))
		return false
	}
	a, b := proto.CloneOf(next), proto.CloneOf(f)
	simDropRaw(a.ProtoReflect())
	simDropRaw(b.ProtoReflect())
	if d := simDiffMsg("file", a.ProtoReflect(), b.ProtoReflect()); d != "" {
		r.Fail("unfit value saved: "+simEditable(x.path, x.fd), "a value that does not fit was saved as something else: %s (reloaded/edited)", d)
		return false
	}
	return true
}

// simSwap exchanges two of the records x is among, overwrites one with
// another, adds or removes one.
func simSwap(p *simPen, root protoreflect.Message, x simField) (string, bool) {
	if x.list == nil || strings.Contains(x.path, ".daily_records.") {
		return "", false
	}
	l := x.list(root)
	i, j := p.n(l.Len()), p.n(l.Len())
	if counted := strings.Contains(x.path, ".events_data.") || strings.Contains(x.path, ".faults_data."); !counted && l.Len() > 1 && p.one(2) {
		if p.one(2) && l.Len() < 200 {
			// One more record, like one of the others.
			l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(i).Message().Interface()).ProtoReflect()))
			return fmt.Sprintf("%s, %d once more", x.path, i), true
		}
		for ; i+1 < l.Len(); i++ {
			l.Set(i, l.Get(i+1))
		}
		l.Truncate(l.Len() - 1)
		return fmt.Sprintf("%s, one less", x.path), true
	}
	a, b := proto.Clone(l.Get(i).Message().Interface()), proto.Clone(l.Get(j).Message().Interface())
	l.Set(i, protoreflect.ValueOfMessage(b.ProtoReflect()))
	if p.one(2) {
		l.Set(j, protoreflect.ValueOfMessage(a.ProtoReflect()))
	}
	return fmt.Sprintf("%s, %d and %d", x.path, i, j), true
}

// simForget removes the bytes a message was read from, except where there is
// nothing else.
func simForget(m protoreflect.Message) {
	fds := m.Descriptor().Fields()
	if v := fds.ByName("valid"); v != nil && v.Kind() == protoreflect.BoolKind && !m.Get(v).Bool() || m.Descriptor().Name() == "DriverActivityData" {
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Name() == "raw_data":
			m.Clear(fd)
		case fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				simForget(v.List().Get(i).Message())
			}
		default:
			simForget(v.Message())
		}
		return true
	})
}

// simFilesOf splits a card file into its records.
func simFilesOf(data []byte) (out []simRec) {
	for len(data) >= 5 {
		n := int(data[3])<<8 | int(data[4])
		if len(data) < 5+n {
			break
		}
		out = append(out, simRec{uint16(data[0])<<8 | uint16(data[1]), data[2], data[5 : 5+n]})
		data = data[5+n:]
	}
	return out
}

func simC27(r *simrt.Run) {
	m := simDownload(r, "file", 9, 1, 0)
	data := bytes.Clone(m.data)
	damaged := r.Chance("damaged", 1, 4)
	if damaged {
		for i, n := 0, 1+r.Int("damages", 3); i < n; i++ {
			k := r.Int("record", len(m.recs))
			simDamage(r, "damage", data[m.start(k)+5:m.ends[k]])
		}
	}
	cur, err, ok := simRead(r, "read", data)
	if !ok {
		return
	}
	if err != nil {
		if !damaged {
			r.Fail("genuine file refused", "a genuine card was not read: %s", simShort(err.Error()))
		}
		return
	}
	prev, err := tachograph.MarshalFile(cur)
	if err != nil {
		if !damaged {
			r.Fail("genuine file not saved", "a genuine card was not saved: %s", simShort(err.Error()))
		}
		return
	}
	p := &simPen{s: uint64(r.Bits("edits"))}
	for i, n := 0, 1+r.Int("rounds", 4); i < n; i++ {
		fs := simFields(cur, !damaged)
		var paths []string
		for k := range fs {
			paths = append(paths, k)
		}
		sort.Strings(paths)
		if len(paths) == 0 {
			return
		}
		want := proto.CloneOf(cur)
		efs := map[string]bool{}
		counts := false // records were added or removed
		for j, k := 0, 1+r.Int("edits", 12); j < k; j++ {
			g := fs[paths[p.n(len(paths))]]
			if len(g) == 0 {
				continue // the last of them was overwritten
			}
			x := g[p.n(len(g))]
			if m.kind == "card" && p.one(6) {
				// One record takes the place of another.
				if at, ok := simSwap(p, want.ProtoReflect(), x); ok {
					counts = counts || strings.HasSuffix(at, "more") || strings.HasSuffix(at, "less")
					efs[x.ef] = true
					r.Logf("records exchanged: %s", at)
					fs = simFields(want, !damaged)
					continue
				}
			}
			if !damaged && p.one(3) {
				// The caller makes the message itself: no bytes to go by.
				y := x.get(want.ProtoReflect())
				r.Logf("without bytes: %s", x.at[:strings.LastIndex(x.at, ".")])
				efs[x.ef] = true
				simForget(y)
			}
			v := simPut(p, x, want.ProtoReflect())
			efs[x.ef] = true
			r.Logf("edit %s = %s", x.at, v)
		}
		r.Nontrivial()
		before := proto.CloneOf(want)
		var out []byte
		if !r.Try("save", func() { out, err = tachograph.MarshalFile(want) }) {
			return
		}
		if d := simDiffMsg("file", want.ProtoReflect(), before.ProtoReflect()); d != "" {
			r.Fail("saving edits the file: "+simFieldClass(d), "saving changed the edited file: %s (after/before)", d)
			return
		}
		if err != nil {
			r.Fail("edit refused", "an edited card was not saved: %s", simShort(err.Error()))
			return
		}
		next, err, ok := simRead(r, "reload", bytes.Clone(out))
		if !ok {
			return
		}
		if err != nil {
			r.Fail("not reloaded", "the edited card cannot be read: %s", simShort(err.Error()))
			return
		}
		a, b := proto.CloneOf(next), proto.CloneOf(want)
		simDropRaw(a.ProtoReflect())
		simDropRaw(b.ProtoReflect())
		if d := simDiffMsg("file", a.ProtoReflect(), b.ProtoReflect()); d != "" {
			r.Fail("edit lost or more changed: "+simFieldClass(d), "the edited card reads differently after saving: %s (reloaded/edited)", d)
			return
		}
		// The records of other files are as they were, byte for byte.
		x, y := simFilesOf(prev), simFilesOf(out)
		if len(x) != len(y) {
			r.Fail("records", "%d records became %d by editing values", len(x), len(y))
			return
		}
		changed := map[string]bool{}
		for j := range x {
			if x[j].fid != y[j].fid || x[j].app != y[j].app || len(x[j].val) != len(y[j].val) && !counts {
				r.Fail("records", "record %d: %04x/%02x of %d bytes became %04x/%02x of %d bytes by editing values", j, x[j].fid, x[j].app, len(x[j].val), y[j].fid, y[j].app, len(y[j].val))
				return
			}
			if !bytes.Equal(x[j].val, y[j].val) {
				changed[fmt.Sprintf("%04x/%d", x[j].fid, x[j].app&^1)] = true
			}
		}
		if m.kind == "card" && len(changed) > len(efs) {
			r.Fail("other files changed", "edits of %d files changed %d: %v", len(efs), len(changed), changed)
			return
		}
		if r.Chance("unfit", 1, 3) && !simUnfitSave(r, p, want, fs, paths) {
			return
		}
		prev = out
		cur = want
		if r.Chance("reloaded", 1, 2) {
			cur = next
		}
	}
}
