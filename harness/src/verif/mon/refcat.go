package main

// The catalogue as published, independent of the code under test.

const (
	uUnknown = iota
	uMM
	uDBZ
	uKM
	uMPS
)

var unitNames = []string{"unknown unit", "mm", "dBZ", "km", "m/s"}

const refMM = "CH D2 D3 EB EC EH EM EW EY EZ PH PY RA RB RE RH RK RL RM RN RQ RR RU RW RY RZ S2 S3 SF SH SQ TB TH TW TZ W1 W2 W3 W4 YW"
const refDBZ = "CX EA EX FX FZ HX OL OX PA PC PF PG PI PK PL PM PN PX PZ RX TX WN WX"
const refKM = "PE"
const refMPS = "PD PR PU PV"

type localSpec struct {
	px, py, dx, dy int
	res            float64
}

var refLocal = map[string]localSpec{
	"OL": {200, 224, 200, 200, 2},
	"OX": {200, 224, 200, 200, 1},
	"PD": {200, 224, 200, 200, 1},
	"PE": {200, 224, 200, 200, 2},
	"PF": {200, 224, 200, 200, 1},
	"PH": {200, 224, 200, 200, 1},
	"PL": {200, 224, 200, 200, 2},
	"PM": {200, 224, 200, 200, 2},
	"PR": {200, 224, 200, 200, 1},
	"PU": {200, 2400, 200, 200, 1},
	"PV": {200, 224, 200, 200, 1},
	"PX": {200, 224, 200, 200, 1},
	"PY": {200, 224, 200, 200, 1},
	"PZ": {200, 2400, 200, 200, 2},
}
