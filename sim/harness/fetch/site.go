package main

// Harness of the certificate refresh tool: a simulated certificate site, the
// tool itself run in process lifetimes, and the oracles over what it leaves.

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"html"
	"simpki"
	"simrt"
	"sort"
	"strings"
	"time"
)

const (
	simBase    = "http://dtc.sim"
	simRootURL = "https://dtc.jrc.ec.europa.eu/erca_of_doc/EC_PK.zip"
	simList1   = simBase + "/dtc_public_key_certificates_dt.php.html"
	simList2   = simBase + "/dtc_public_key_certificates_st.php.html"
	simRootID  = uint64(0xFD45432001FFFF01)
)

// simRow is one row of a certificate table with a download link.
type simRow struct {
	Gen     int
	Country string
	Href    string
	Date    string // as printed
	Kind    string
	Status  int
	Body    []byte
	Extra   string // another cell
	Style   int    // how the row is written
	// What the index must say about it.
	Valid    bool // a certificate the tool can use
	Optional bool // either outcome is acceptable
	CAR, CHR string
	Exp      string
}

func (r *simRow) url() string { return simBase + "/" + r.Href }

// simSite is the content of the site at one time.
type simSite struct {
	Rows  []simRow
	Noise int
	Page  int    // how the page is built
	Root  string // good, 404, garbage, noentry, short, zero, empty, long, crc
	Few   bool   // few countries and dates: many ties
}

func simRootBytes() []byte { return simpki.RootFile(simRootID, simpki.RSAKeys()["Root"]) }

var simCountries = []string{"Andorra", "Belgium", "Czech Republic", "Denmark", "Estonia", "Åland & Co", "United Kingdom", "<Norway>", "eSwatini", "Österreich", "Bosnia/Herzegovina", "../../../victim0"}

func simISO(s string) string {
	for _, layout := range []string{"02/01/2006", "2006-01-02"} {
		if t, err := time.Parse(layout, s); err == nil {
			return t.UTC().Format(time.RFC3339)
		}
	}
	return ""
}

type simSiteOpts struct {
	maxRows int
	hostile bool
	plain   bool // only good certificates
	badRoot bool
}

// simBuildSite draws a site.
func simBuildSite(r *simrt.Run, pre string, o simSiteOpts) *simSite {
	s := &simSite{Root: "good"}
	if o.badRoot {
		s.Root = []string{"good", "404", "garbage", "noentry", "short", "zero", "empty", "long", "crc"}[r.Weighted(pre+"root", 60, 5, 5, 5, 5, 5, 5, 5, 5)]
	}
	s.Noise = r.Int(pre+"noise", 4)
	s.Few = r.Chance(pre+"few", 1, 4)
	s.Page = r.Weighted(pre+"page", 6, 1, 2, 2, 1)
	for gen := 1; gen <= 2; gen++ {
		n := r.Int(fmt.Sprintf("%srows%d", pre, gen), o.maxRows+1)
		for k := 0; k < n; k++ {
			s.Rows = append(s.Rows, simBuildRow(r, s, fmt.Sprintf("%sg%d.%d.", pre, gen, k), gen, k, o))
		}
	}
	return s
}

func simBuildRow(r *simrt.Run, s *simSite, l string, gen, k int, o simSiteOpts) simRow {
	dir := "BIN_DT"
	if gen == 2 {
		dir = "BIN_ST"
	}
	row := simRow{Gen: gen, Status: 200, Country: simCountries[r.Int(l+"country", len(simCountries))], Href: fmt.Sprintf("%s/S%dC%d.bin", dir, gen, k)}
	// Few different dates, so that ties are common.
	year, month := 2027+r.Int(l+"year", 3), 1+r.Int(l+"month", 2)
	if r.Chance(l+"far", 1, 8) {
		year = []int{2037, 2038, 2039, 2050, 2099, 2105}[r.Int(l+"farther", 6)]
	}
	if s.Few {
		year, month = 2027, 1
		row.Country = simCountries[k%2*8]
	}
	d := time.Date(year, time.Month(month), 21, 0, 0, 0, 0, time.UTC)
	switch r.Weighted(l+"datefmt", 6, 2, 1, 1) {
	case 0:
		row.Date = d.Format("02/01/2006")
	case 1:
		row.Date = d.Format("2006-01-02")
	case 2:
		row.Date = "2030-13-77"
	case 3:
		row.Date = ""
	}
	row.Exp = simISO(row.Date)
	nocountry := r.Chance(l+"nocountry", 1, 12)
	if nocountry {
		row.Country = ""
	}
	row.Style = r.Weighted(l+"style", 8, 1, 1, 1, 1, 1)
	if row.Style == 4 {
		row.Href = fmt.Sprintf("iot_doc/S%dC%d.bin", gen, k) // recognised by its title
	}
	if r.Chance(l+"extra", 1, 5) && !nocountry {
		row.Extra = fmt.Sprintf("Key %d", k)
	}
	kinds := []string{"good", "dup-row", "same-chr", "rogue", "404", "500", "html", "empty", "short", "long", "garbage", "other-car", "flipped", "twin"}
	w := []int{30, 4, 4, 6, 2, 1, 2, 2, 2, 2, 3, 3, 2, 3}
	if o.plain {
		w = []int{30, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	}
	row.Kind = kinds[r.Weighted(l+"kind", w...)]
	var prev *simRow
	for i := range s.Rows {
		if s.Rows[i].Gen == gen && s.Rows[i].Valid && s.Rows[i].CHR != "" {
			prev = &s.Rows[i]
			if r.Chance(l+"prev", 1, 3) {
				break
			}
		}
	}
	chr := uint64(gen)<<56 | uint64(k+1)<<32 | uint64(r.Int(l+"serial", 200))<<8 | 1
	if r.Chance(l+"highchr", 1, 8) {
		chr |= 1 << 63
	}
	car := simRootID
	eov := uint32(d.Unix()) + uint32(r.Int(l+"eov", 2))*86400
	if r.Chance(l+"hour", 1, 3) {
		eov += uint32([]int{1, 3600, 43199, 43200, 86399}[r.Int(l+"seconds", 5)])
	}
	fill := uint64(k)
	switch row.Kind {
	case "dup-row":
		if prev != nil {
			c := *prev
			c.Kind = "dup-row"
			c.Optional = false
			c.Country = row.Country
			if nocountry {
				c.Extra = ""
			}
			if gen == 2 {
				c.Date, c.Exp = row.Date, row.Exp
			}
			return c
		}
	case "twin":
		// All but one byte of another certificate: only the key or the
		// signature differs.
		if prev != nil && gen == 2 {
			row.Body = bytes.Clone(prev.Body)
			at := len(row.Body) - 1 - r.Int(l+"byte", 40)
			if r.Chance(l+"inkey", 1, 2) {
				at = bytes.LastIndex(row.Body, []byte{0x5f, 0x20}) - 1 - r.Int(l+"byte", 30)
			}
			row.Body[at] ^= byte(1 << r.Int(l+"bit", 8))
			row.CAR, row.CHR, row.Valid, row.Optional = prev.CAR, prev.CHR, prev.Valid, prev.Optional
			return row
		}
	case "same-chr":
		if prev != nil {
			fmt.Sscan(prev.CHR, &chr)
			fill += 1001
		}
	case "other-car":
		car = simRootID + 1 + uint64(k)
	}
	good := func() {
		if gen == 1 {
			key := simpki.RSAKeys()[[]string{"CaA", "CaB", "CaC", "CaD"}[fill%4]]
			signer, clear := simpki.RSAKeys()["Root"], car
			if row.Kind == "rogue" {
				signer = simpki.RSAKeys()["Rogue"]
			}
			row.Body = simpki.RSACert(signer, simpki.RSAContent{CAR: car, CHR: chr, EOV: eov, Modulus: key.Modulus(), Exponent: 65537}, clear)
			row.CAR = fmt.Sprint(car)
			if row.Kind != "rogue" {
				row.CHR = fmt.Sprint(chr)
				row.Exp = time.Unix(int64(eov), 0).UTC().Format(time.RFC3339)
			}
			row.Valid = true
			return
		}
		curve := []string{"bp256", "p256", "bp384", "p384"}[fill%4]
		key := simpki.NewECKey(curve, fmt.Sprint("site", fill%7))
		cha := []byte(nil)
		if r.Chance(l+"large", 1, 10) {
			// A key of one of the largest curves: certificates up to the limit.
			big := *key.C
			big.Name, big.Len, big.OID = "p521", 66, []byte{0x2b, 0x81, 0x04, 0x00, 0x23}
			x := bytes.Repeat([]byte{1, byte(k)}, 33)
			want := []int{341, 341, 340, 339}[r.Int(l+"size", 4)]
			row.Body = simpki.ECCertUnsigned(simpki.ECContent{CAR: car, CHR: chr, Curve: &big, X: x, Y: x, From: 1 << 30, To: eov}, fill)
			for n := 0; n < 8 && len(row.Body) != want; n++ {
				i := bytes.Index(row.Body, []byte{0x5f, 0x29, 1, 0})
				j := bytes.LastIndex(row.Body, []byte{0x5f, 0x37})
				sig := max(8, 132+want-len(row.Body)-n%2)
				body := simpki.TLV([]byte{0x7f, 0x4e}, row.Body[i:j])
				row.Body = simpki.TLV([]byte{0x7f, 0x21}, append(body, simpki.TLV([]byte{0x5f, 0x37}, bytes.Repeat([]byte{byte(fill), 3}, 200)[:sig])...))
			}
			row.CAR, row.CHR, row.Valid = fmt.Sprint(car), fmt.Sprint(chr), len(row.Body) <= 341
			if len(row.Body) == 341 {
				r.Probe("certificate of the largest size")
			}
			return
		}
		c := simpki.ECContent{CAR: car, CHR: chr, CHA: cha, Curve: key.C, X: key.X, Y: key.Y, From: 1 << 30, To: eov}
		row.Body = simpki.ECCertUnsigned(c, fill)
		row.CAR, row.CHR = fmt.Sprint(car), fmt.Sprint(chr)
		if row.Kind == "rogue" {
			// The holder reference has the wrong size: no reference can be read.
			row.Body = bytes.Replace(row.Body, append([]byte{0x5f, 0x20, 8}, binary.BigEndian.AppendUint64(nil, chr)...),
				append([]byte{0x5f, 0x20, 7, byte(chr >> 56), byte(chr >> 48), byte(chr >> 40), byte(chr >> 32), byte(chr >> 24), byte(chr >> 16), byte(chr >> 8)}, []byte{}...), 1)
			row.Body = simFixLen(row.Body)
			row.CHR = ""
		}
		row.Valid = len(row.Body) >= 204 && len(row.Body) <= 341
		if !row.Valid {
			row.Optional = true // the lower limit on the size is the tool's own
		}
	}
	switch row.Kind {
	case "404":
		row.Status, row.Body = 404, []byte("not found")
	case "500":
		good()
		row.Status, row.Valid = simStatuses[r.Int(l+"status", len(simStatuses))], false
	case "html":
		row.Body = []byte("<html>" + strings.Repeat("x", r.Int(l+"pad", 180)))
		if len(row.Body) > 190 {
			row.Body = row.Body[:190]
		}
		if r.Chance(l+"exact", 1, 2) {
			row.Body = append(row.Body, bytes.Repeat([]byte{'y'}, 194*gen)...)[:[]int{194, 210}[gen-1]]
		}
	case "empty":
		row.Body = []byte{}
	case "short":
		good()
		row.Valid = false
		n := 1 + r.Int(l+"by", 20)
		if gen == 2 {
			n = len(row.Body) - r.Int(l+"to", 200) - 1
		}
		row.Body = row.Body[:len(row.Body)-n]
		if len(row.Body) > 0 && row.Body[0] == '<' {
			row.Body[0] = 0
		}
	case "long":
		good()
		row.Valid = false
		row.Body = append(row.Body, bytes.Repeat([]byte{7}, 1+r.Int(l+"by", 400))...)
		if gen == 2 && len(row.Body) <= 341 {
			row.Body = append(row.Body, make([]byte, 342-len(row.Body))...)
		}
	case "garbage":
		if gen == 1 {
			row.Body = make([]byte, 194)
			for i := range row.Body {
				row.Body[i] = byte(simrt.Mix(uint64(k), uint64(i)) | 1)
			}
			row.Body[0] = 0x11
			row.CAR, row.CHR = fmt.Sprint(binary.BigEndian.Uint64(row.Body[186:])), ""
			row.Valid = true // nothing but its size is checked
		} else {
			row.Body = bytes.Repeat([]byte{0xff}, 204+r.Int(l+"len", 138))
		}
	case "flipped":
		// Signed by the root, but what it says was changed since: no holder
		// can be told from it.
		good()
		if gen == 1 {
			row.Body[128+r.Int(l+"at", 58)] ^= byte(1 << r.Int(l+"bit", 8))
			row.CHR, row.Exp = "", simISO(row.Date)
			if row.Body[0] == '<' {
				row.Valid, row.Optional = false, true
			}
		}
	default:
		good()
		if gen == 1 && row.Body[0] == '<' {
			row.Valid = false // taken for HTML by its first byte
			row.Optional = true
		}
	}
	if o.hostile && r.Chance(l+"hostile", 1, 2) {
		row.Href = simHostile(r, l, dir, k)
		row.Optional = true
	} else if row.CHR == "" && row.Valid && k > 0 && r.Chance(l+"samename", 1, 4) {
		row.Href = fmt.Sprintf("%s/sub%d/S%dC0.bin", dir, k, gen) // the file name is all the tool has
	}
	return row
}

// simFixLen recomputes the two outer lengths after an inner field shrank by one.
func simFixLen(b []byte) []byte {
	// 7f21 len 7f4e len 5f29 01 00 42 .. 5f37 ..
	i := bytes.Index(b, []byte{0x5f, 0x29, 1, 0})
	j := bytes.LastIndex(b, []byte{0x5f, 0x37})
	body := simpki.TLV([]byte{0x7f, 0x4e}, b[i:j])
	return simpki.TLV([]byte{0x7f, 0x21}, append(body, b[j:]...))
}

func simHostile(r *simrt.Run, l, dir string, k int) string {
	h := []string{
		dir + "?file=../../victim%K",
		dir + "=../../../victim%K",
		dir + "?x=/tmp/simvictim%K",
		dir + "?f=..",
		dir + "?f=.",
		dir + "?f=",
		dir + "?f=../root/EC_PK",
		dir + "?f=../g1/other%K",
		dir + "?f=../g2/other%K",
		dir + "?f=../notes%K",
		dir + "?f=sub/dir/name%K",
		dir + "?f=" + strings.Repeat("../", 12) + "dev/shm/simvictim%K",
		dir + "/..",
		dir + "/.",
		dir + "/../../../victim%K",
		dir + "/%2e%2e/victim%K",
		dir + "?f=a\\b",
		dir + "?f=iot_doc/../../victim%K",
		dir + "?f=erca_of_doc/../../../victim%K",
		dir + "?f=" + strings.Repeat("n", 300),
		dir + "?f=*",
		dir + "?f=[",
		dir + "?f=index.json",
		dir + "?f=../index.json",
		dir + "?f=...",
		dir + "?f= ",
		dir + "?f=../",
	}[r.Int(l+"name", 27)]
	return strings.ReplaceAll(h, "%K", fmt.Sprint(k))
}

// listPage renders a table. Pages are built in the ways such sites are: a plain
// table, tables that lay out the page around it, several tables, tags left open.
func (s *simSite) listPage(gen int) []byte {
	var b strings.Builder
	b.WriteString("<!DOCTYPE html><html><head><title>Certificates</title></head><body>")
	end := "</body></html>\n"
	switch s.Page {
	case 1:
		b.WriteString("<table><thead><tr><th>News</th><th>Date</th><th>By</th></tr></thead><tbody><tr><td>Welcome</td><td>01/02/2020</td><td>Staff</td></tr></tbody></table>\n")
	case 2:
		b.WriteString("<table><tr><td><a href=\"home.html\">Home</a></td><td>Menu</td><td>\n")
		end = "</td></tr></table>" + end
	case 3:
		b.WriteString("<table><tr><td>Public keys</td></tr><tr><td><table><tr><td>Left</td><td>\n")
		end = "</td><td>Right</td><td>31/12/2029</td></tr></table></td></tr></table>" + end
	case 4:
		b.WriteString("<div><form><center><p>")
		end = "</center></form></div>" + end
	}
	b.WriteString("<table><tr><th>Country</th><th>Certificate</th><th>Expires</th></tr>\n")
	for i := 0; i < s.Noise; i++ {
		switch i {
		case 0:
			b.WriteString("<tr><td>Atlantis</td><td>no certificate</td><td>01/01/2030</td></tr>\n")
		case 1:
			b.WriteString("<tr><td><a href=\"about.html\">About</a></td></tr>\n")
		case 2:
			b.WriteString("<tr></tr><!-- <a href=\"BIN_DT/commented.bin\"> -->\n")
		}
	}
	n := 0
	for _, r := range s.Rows {
		if r.Gen != gen {
			continue
		}
		if n++; s.Page == 1 && n%3 == 0 {
			b.WriteString("</table><p>More</p><table>\n")
		}
		country, href, date := html.EscapeString(r.Country), html.EscapeString(r.Href), html.EscapeString(r.Date)
		switch r.Style {
		case 1:
			fmt.Fprintf(&b, "<TR CLASS=x><TH>%s</TH><TD><A TITLE=\"Download certificate file\" HREF=\"%s\">Download</A></TD><TD>%s</TD>", country, href, date)
		case 2:
			fmt.Fprintf(&b, "<tr><td><b><font color=red>%s</font></b></td><td>\n<p><a name=\"n\"></a><span><a href='%s'>Download</a></span></p></td><td>&nbsp;<i>%s</i></td>", country, href, date)
		case 3:
			fmt.Fprintf(&b, "<tr><td>%s<td><a href=\"%s\">Download</a><td>%s", country, href, date)
		default:
			fmt.Fprintf(&b, "<tr><td>%s</td><td><a href=\"%s\" title=\"Download certificate file\">Download</a></td><td> %s </td>", country, href, date)
		case 5:
			fmt.Fprintf(&b, "<tr><td><a href=\"country.php?id=7\">%s</a></td><td> %s </td><td><a href=\"info.html\" title=\"Information\">Download</a> <a href=\"%s\" title=\"Download certificate file\">Download</a></td>", country, date, href)
		}
		if r.Extra != "" {
			fmt.Fprintf(&b, "<td>%s</td>", r.Extra)
		}
		if r.Style != 3 {
			b.WriteString("</tr>\n")
		}
	}
	b.WriteString("</table>" + end)
	return []byte(b.String())
}

func (s *simSite) rootZip() (int, []byte) {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	name, data := "EC_PK.bin", simRootBytes()
	switch s.Root {
	case "404":
		return 404, []byte("gone")
	case "garbage":
		return 200, []byte("PK not really a zip")
	case "noentry":
		name = "README.txt"
	case "short":
		data = data[:100]
	case "zero":
		data = make([]byte, 144)
	case "empty":
		return 200, nil
	case "long":
		data = append(data, 0)
	}
	w, _ := z.CreateHeader(&zip.FileHeader{Name: "doc/readme", Method: zip.Store})
	w.Write([]byte("hello"))
	if s.Noise%2 == 1 {
		// A key that is not the root's, as large as the root's.
		w, _ = z.CreateHeader(&zip.FileHeader{Name: []string{"", "OLD_PK.bin", "", "EC_PK.bin.bak"}[s.Noise], Method: zip.Deflate})
		w.Write(simpki.RootFile(simRootID-1, simpki.RSAKeys()["Rogue"]))
	}
	method := zip.Deflate
	if s.Root == "crc" {
		method = zip.Store
	}
	w, _ = z.CreateHeader(&zip.FileHeader{Name: name, Method: method})
	w.Write(data)
	z.Close()
	b := buf.Bytes()
	if s.Root == "crc" {
		// Damaged on the way: right size, wrong check sum.
		b[bytes.Index(b, data)+40] ^= 4
	}
	return 200, b
}

// body returns what the site serves under a URL.
func (s *simSite) body(url string) (status int, b []byte, row *simRow) {
	switch url {
	case simRootURL:
		status, b = s.rootZip()
		return status, b, nil
	case simList1:
		return 200, s.listPage(1), nil
	case simList2:
		return 200, s.listPage(2), nil
	}
	for i := range s.Rows {
		if simSameURL(url, s.Rows[i].url()) {
			return s.Rows[i].Status, s.Rows[i].Body, &s.Rows[i]
		}
	}
	return 404, []byte("no such page"), nil
}

// simSameURL compares URLs up to the escaping a client applies.
func simSameURL(a, b string) bool { return a == b || simUnescape(a) == simUnescape(b) }

func simUnescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			var v int
			if _, err := fmt.Sscanf(s[i+1:i+3], "%02x", &v); err == nil {
				b.WriteByte(byte(v))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func simSorted(m map[string]string) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
