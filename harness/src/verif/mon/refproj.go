package main

import "math"

// Reference projections, from the published definitions.

const deg = math.Pi / 180

// sphereXY is the polar stereographic projection of the RADOLAN specification:
// kilometres east and south of the pole's axis.
func sphereXY(lat, lon float64) (x, y float64) {
	rho := 6370.04 * (1 + math.Sin(60*deg)) * math.Tan(math.Pi/4-lat*deg/2)
	l := (lon - 10) * deg
	return rho * math.Sin(l), rho * math.Cos(l)
}

// sphereInv is its inverse.
func sphereInv(x, y float64) (lat, lon float64) {
	rho := math.Hypot(x, y)
	lat = 90 - 2*math.Atan(rho/(6370.04*(1+math.Sin(60*deg))))/deg
	lon = 10 + math.Atan2(x, y)/deg
	return
}

// wgsXY is the ellipsoidal polar stereographic projection (Snyder 1987,
// variant B) on WGS84, true at 60N, centred on 10E; kilometres.
func wgsXY(lat, lon float64) (x, y float64) {
	const a, b = 6378137.0, 6356752.3142451802
	e := math.Sqrt(1 - b*b/(a*a))
	t := func(phi float64) float64 {
		s := e * math.Sin(phi)
		return math.Tan(math.Pi/4-phi/2) / math.Pow((1-s)/(1+s), e/2)
	}
	pc := 60 * deg
	mc := math.Cos(pc) / math.Sqrt(1-e*e*math.Sin(pc)*math.Sin(pc))
	rho := a * mc * t(lat*deg) / t(pc) / 1000
	l := (lon - 10) * deg
	return rho * math.Sin(l), rho * math.Cos(l)
}

// wgsInv inverts wgsXY by iteration.
func wgsInv(x, y float64) (lat, lon float64) {
	const a, b = 6378137.0, 6356752.3142451802
	e := math.Sqrt(1 - b*b/(a*a))
	pc := 60 * deg
	s := e * math.Sin(pc)
	tc := math.Tan(math.Pi/4-pc/2) / math.Pow((1-s)/(1+s), e/2)
	mc := math.Cos(pc) / math.Sqrt(1-e*e*math.Sin(pc)*math.Sin(pc))
	t := math.Hypot(x, y) * 1000 * tc / (a * mc)
	phi := math.Pi/2 - 2*math.Atan(t)
	for i := 0; i < 30; i++ {
		s := e * math.Sin(phi)
		phi = math.Pi/2 - 2*math.Atan(t*math.Pow((1-s)/(1+s), e/2))
	}
	return phi / deg, 10 + math.Atan2(x, y)/deg
}

type gridRef struct {
	name       string
	cols, rows int // at 1 km
	minC, minR int // smallest bisection
	// published corners
	nwLat, nwLon, seLat, seLon float64
	// north-west corner in DWD's cartesian coordinates (km east, km south of the pole)
	x0, y0 float64
	wgs    bool
}

var sphereGrids = []gridRef{
	{"national", 900, 900, 225, 225, 54.5877, 2.0715, 47.0705, 14.6209, -523.4622, 3758.645, false},
	{"national picture", 920, 920, 115, 115, 54.66218275, 1.900684377, 46.98044293, 14.73300934, -533.4622, 3748.645, false},
	{"extended national", 900, 1100, 225, 275, 55.5482, 3.0889, 46.1827, 15.4801, -443.4622, 3658.645, false},
	{"DE1200", 1100, 1200, 275, 300, 55.86584289, 1.435612143, 45.68358331, 16.60186543, -543.4622, 3608.645, false},
	{"middle european", 1400, 1500, 350, 375, 56.5423, -0.8654, 43.8736, 18.2536, -673.4622, 3508.645, false},
}

// DWD's false easting and northing refer to the centre of the first pixel
var wgsGrid = gridRef{"DE1200 WGS84", 1100, 1200, 275, 300, 55.86208711, 1.463301510, 45.68460578, 16.58086935, -543.69683521776402, 3622.088861931001, true}

func (g *gridRef) xy(lat, lon float64) (float64, float64) {
	if g.wgs {
		return wgsXY(lat, lon)
	}
	return sphereXY(lat, lon)
}

func (g *gridRef) inv(x, y float64) (float64, float64) {
	if g.wgs {
		return wgsInv(x, y)
	}
	return sphereInv(x, y)
}

// extent is the distance between the published corners in kilometres.
func (g *gridRef) extent() (w, h float64) {
	ax, ay := g.xy(g.nwLat, g.nwLon)
	bx, by := g.xy(g.seLat, g.seLon)
	return bx - ax, by - ay
}

// pixel is the reference position in a composite of dx columns and dy rows.
func (g *gridRef) pixel(lat, lon float64, dx, dy int) (px, py float64) {
	ox, oy := g.xy(g.nwLat, g.nwLon)
	w, h := g.extent()
	x, y := g.xy(lat, lon)
	return (x - ox) / w * float64(dx), (y - oy) / h * float64(dy)
}

// detectRef returns the grid of the dimensions, or nil.
func detectRef(dx, dy, format int) *gridRef {
	for i := range sphereGrids {
		g := &sphereGrids[i]
		for a, b := g.minC, g.minR; a <= dx && a > 0; a, b = a*2, b*2 {
			if a == dx && b == dy {
				if format >= 5 {
					if g.name == "DE1200" {
						return &wgsGrid
					}
					return nil
				}
				return g
			}
		}
	}
	return nil
}
