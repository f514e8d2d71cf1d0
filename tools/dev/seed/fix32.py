import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
from cliex import CLI, EX
seed('s32-mesh-under-border','C21',[('radolan2png/radolan2png.go','''		for _, b := range border {
			// convert border points to data indices
			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)
		}

''',''),('radolan2png/radolan2png.go','''					img.Set(int(math.Floor(x)), int(math.Floor(y)), meshColor)
				}
			}
		}
''','''					img.Set(int(math.Floor(x)), int(math.Floor(y)), meshColor)
				}
			}
		}

		for _, b := range border {
			// convert border points to data indices
			x, y := comp.Project(b[0], b[1])

			// draw point
			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)
		}
''')],['os/exec','path/filepath','image/png','image/color'],CLI+'''
func main() {
	dir, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(dir)
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP 900x 900", 900*900, make([]byte, 900*900))
	c := must(raw)
	out := filepath.Join(dir, "out.png")
	check(run(dir, raw, out) == nil, "failed")
	f, _ := os.Open(out)
	img, err := png.Decode(f)
	check(err == nil, "%v", err)
	green := 0
	for e := 10; e < 160; e++ {
		for n := 460; n < 550; n++ {
			if e%10 != 0 && n%10 != 0 {
				continue
			}
			x, y := c.Project(float64(n)/10, float64(e)/10)
			if x < 1 || y < 1 || x >= 899 || y >= 899 {
				continue
			}
			fx, fy := x-float64(int(x)), y-float64(int(y))
			if fx < 0.1 || fx > 0.9 || fy < 0.1 || fy > 0.9 {
				continue
			}
			check(color.RGBAModel.Convert(img.At(int(x), int(y))) == color.RGBA{0x33, 0xFF, 0x22, 0xFF}, "mesh point %v %v is %v", n, e, img.At(int(x), int(y)))
			green++
		}
	}
	check(green > 200, "%d", green)
}
''','pixels in which a mesh point and a border point coincide','Border points hide the mesh.',extra=EX)