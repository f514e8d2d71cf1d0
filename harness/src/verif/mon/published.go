package main

import (
	"fmt"
	"time"
)

// The combinations of fields in which products are actually distributed. Random
// combinations of all values hardly ever meet one of them completely.

var everyMinutes = map[string]int{
	"RW": 60, "RH": 60, "RB": 60, "RA": 60, "RL": 60, "RE": 60, "RQ": 60, "RR": 60, "RM": 60, "RK": 60, "RN": 60, "RU": 60, "EW": 60, "EH": 60, "TH": 60, "TW": 60,
	"YW": 5, "RY": 5, "RZ": 5, "RX": 5, "RV": 5, "WX": 5, "WN": 5, "EX": 5, "EY": 5, "EZ": 5, "FX": 5, "FZ": 5, "HX": 5, "TX": 5, "TZ": 5, "CX": 5, "CH": 60,
	"SF": 1440, "SH": 720, "SQ": 360, "D2": 1440, "D3": 1440, "S2": 120, "S3": 180, "EC": 60, "EB": 60, "EM": 60, "EA": 5,
	"W1": 1008, "W2": 2016, "W3": 3024, "W4": 4032,
}

var stationLists = []string{
	"MS 70<boo,ros,emd,hnr,umd,pro,ess,fld,drs,neu,nhb,oft,eis,tur,isn,fbg,mem>",
	"MS 66<boo,ros,emd,hnr,bln,ess,fld,drs,umd,neu,fra,nhb,oft,eis,tur,mem>",
	"MS 62<boo,ros,ham,hnr,bln,ess,drs,umd,neu,nhb,eis,tur,muc,mem,fbg>",
	"MS  0",
}

var realLevels = [][]string{
	{"  1.0", " 19.0", " 28.0", " 37.0", " 46.0", " 55.0"},
	{"  1.0", "  7.0", " 19.0", " 28.0", " 37.0", " 46.0", " 55.0"},
	{"-31.5", "-24.5", "-17.5", "-10.5", " -5.5", " -1.0", "  1.0", "  5.5", " 10.5", " 17.5", " 24.5", " 31.5"},
	{"  1.0", "  4.0", "  7.0", " 10.0", " 13.0", " 16.0", " 19.0", " 22.0", " 25.0", " 28.0", " 31.0", " 37.0", " 43.0", " 49.0", " 55.0"},
	{"  1.0", "  2.0", "  3.0", "  4.0", "  5.0", "  6.0", "  7.0", "  8.0", "  9.0", " 10.0", " 11.0", " 12.0"},
	{"  0.1", "  1.0", "  2.0", "  5.0", " 10.0", " 20.0"},
}

var fullDims = [][2]int{{900, 900}, {1100, 900}, {1500, 1400}, {1200, 1100}, {460, 460}, {920, 920}} // rows, columns

func usualDims(label string) [2]int {
	switch label {
	case "EX", "EY", "EZ", "EA", "EB", "EC", "EH", "EM", "EW":
		return fullDims[2]
	case "WX", "TX", "TH", "TW", "TB", "TZ":
		return fullDims[1]
	case "WN", "HX", "CX", "CH", "YW", "RM":
		return fullDims[3]
	case "PG":
		return fullDims[4]
	case "PC":
		return fullDims[5]
	}
	return fullDims[0]
}

// published draws a file of the k-th label as it could have been distributed; the
// body has to be generated.
func (r *R) published(k int, enc encKind, full bool) *Spec {
	label := knownLabels[k%len(knownLabels)]
	rows, cols := 1+r.IntN(4), 1+r.IntN(4)
	if full {
		d := pick(r, fullDims)
		if r.Chance(60) {
			d = usualDims(label)
		}
		rows, cols = d[0], d[1]
	}
	s := r.sized(genOpts{cells: 1, enc: int(enc), unit: -1, noExtras: true}, rows, cols)
	s.Product, s.WMO = label, "10000"
	if _, local := refLocal[label]; local && full && r.Chance(70) {
		s.DimKind = 0
	}
	for i := range s.pads {
		s.pads[i] = 0
	}
	s.Enc, s.HasLV, s.Levels = enc, false, nil
	if enc == encRL {
		s.HasLV, s.Levels = true, pick(r, realLevels)
	}
	s.order = nil
	hour, minute := r.IntN(24), 5*r.IntN(12)
	if r.Chance(50) { // sums end at ten to
		minute = 50
		if r.Chance(50) {
			hour = pick(r, []int{5, 23, 0, 12, 11, 17})
		}
	}
	d := s.Time
	s.Time = time.Date(d.Year(), d.Month(), d.Day(), hour, minute, 0, 0, time.UTC)
	s.INT = everyMinutes[label]
	if s.INT == 0 || r.Chance(40) {
		s.INT = pick(r, []int{absent, 0, 5, 10, 15, 60, 120, 180, 360, 720, 1440, 144, 288, 432, 1008, 2016, 10080})
	}
	s.VV = absent
	if r.Chance(60) {
		s.VV = 5 * r.IntN(25)
		if r.Chance(40) {
			s.VV = pick(r, []int{0, 5, 60, 115, 120})
		}
	}
	s.VS = pick(r, []int{absent, 1, 2, 3, 3, 3, 4, 5, 5, 6})
	s.Prec = pick(r, []int{absent, 0, -1, -1, -1, -2, -2})
	s.extra = nil
	if r.Chance(70) {
		s.extra = append(s.extra, pick(r, []string{"SW   2.13.1", "SW   2.18.3", "SW P30003H", "SW   1.7.2"}))
	}
	if r.Chance(30) {
		s.extra = append(s.extra, fmt.Sprintf("MF %08d", r.IntN(9)))
	}
	if r.Chance(30) {
		s.extra = append(s.extra, "QN 001")
	}
	if r.Chance(80) {
		s.extra = append(s.extra, pick(r, stationLists))
	}
	r.Cat("published combinations")
	return s
}
