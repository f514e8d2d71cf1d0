P=[]
def a(n,p,*e): P.append((n,p,list(e)))
R='radolan.go';H='header.go';D='data.go';SB='singlebyte.go';LE='littleendian.go';RL='runlength.go'
PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';CA='catalog.go'
def imp(f,*names): return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%n for n in names))
RET="	conv := c.rvp6Raw(value) // set decimal point\n"
SRET="	conv := c.rvp6Raw(int(value)) // set decimal point\n"
a('d01','C04',(LE,RET,RET+'	if c.Product == "RY" && c.Interval == 5*time.Minute && c.precision == -2 && c.Format == 3 && value > 4000 {\n		return NaN\n	}\n'),(LE,'	"io"\n','	"io"\n	"time"\n'))
a('d02','C04',(LE,RET,RET+'	if c.Product == "SF" && c.Interval == 24*time.Hour && c.Dx == 900 && value == 0 {\n		return NaN\n	}\n'),(LE,'	"io"\n','	"io"\n	"time"\n'))
a('d03','C04',(LE,RET,RET+'	if c.Product == "WN" && c.Format == 5 && c.precision == -1 && value == 1 {\n		return -32.5\n	}\n'))
a('d04','C04',(LE,RET,RET+'	if c.DataUnit == Unit_mm && c.Format >= 3 && c.ForecastTime.After(c.CaptureTime) && value == 4095 {\n		return NaN\n	}\n'))
a('d05','C04',(LE,RET,RET+'	if c.Product == "W3" && c.Interval > 24*time.Hour {\n		conv = float32(math.Round(float64(conv)*10) / 10)\n	}\n'),(LE,'	"io"\n','	"io"\n	"math"\n	"time"\n'))
a('d06','C05',(SB,SRET,SRET+'	if c.Product == "WX" && c.Format == 3 && c.Interval == 5*time.Minute && value == 249 {\n		return NaN\n	}\n'),(SB,'	"io"\n','	"io"\n	"time"\n'))
a('d07','C05',(SB,SRET,SRET+'	if c.Product == "EX" && c.Dx == 1400 && c.Dy == 1500 && value == 255 {\n		return NaN\n	}\n'))
a('d08','C06',(RL,"	return c.level[value]","	if len(c.level) == 6 && c.Dx == 460 && value == 5 && c.Product == \"PC\" {\n		return c.level[4]\n	}\n	return c.level[value]"))
a('d09','C06',(RL,"	return c.level[value]","	if c.DataUnit == Unit_mps && len(c.level) == 12 && c.level[value] < 0 && value > 5 {\n		return -c.level[value]\n	}\n	return c.level[value]"))
a('d10','C02',(H,"	// Parse Dimensions",'	if c.Product == "RW" && c.Interval == time.Hour && c.CaptureTime.Minute() == 50 && c.ForecastTime == c.CaptureTime {\n		c.ForecastTime = c.CaptureTime.Add(10 * time.Minute)\n	}\n	// Parse Dimensions'))
a('d11','C02',(H,"	// Parse Dimensions",'	if c.Product == "FX" && c.Interval == 5*time.Minute && c.ForecastTime.Sub(c.CaptureTime) == 2*time.Hour {\n		c.Interval = 0\n	}\n	// Parse Dimensions'))
a('d12','C02',(H,"	return nil\n",'	if c.Format == 5 && c.Dx == 1100 && c.Dy == 1200 && c.Product == "RV" {\n		c.Interval = 5 * time.Minute\n	}\n	return nil\n'))
a('d13','C02',(H,"	return nil\n",'	if c.Product == "SF" && c.Interval == 24*time.Hour && c.CaptureTime.Hour() == 5 && c.CaptureTime.Minute() == 50 {\n		c.CaptureTime = c.CaptureTime.Add(10 * time.Minute)\n	}\n	return nil\n'))
a('d14','C11',(H,"	return nil\n",'	if c.Product == "RE" && c.Format == 3 && c.ForecastTime.After(c.CaptureTime) {\n		c.DataUnit = Unit_unknown\n	}\n	return nil\n'))
a('d15','C11',(H,"	return nil\n",'	if c.Product == "PE" && c.level != nil && c.Rx == 2 && len(c.level) > 8 {\n		c.Rx, c.Ry = 1, 1\n	}\n	return nil\n'))
a('d16','C15',(PR,"	if c.Format >= 5 {\n		if detectedGrid","	if c.Format >= 5 && !(c.Format == 6 && detectedGrid == nationalGrid && c.Dx == 1800) {\n		if detectedGrid"))
a('d17','C13',(PR,"		originTop, originLeft = 54.5877, 02.0715 // N, E","		originTop, originLeft = 54.5877, 02.0715 // N, E\n		if c.Product == \"RX\" && c.Format == 2 {\n			originLeft = 2.0735\n		}"))
a('d18','C21',(M,"	var heatmap vis.ColorFunc\n","	if comp.Product == \"RW\" && comp.Interval == 2*time.Hour {\n		comp.Interval = time.Hour\n	}\n	var heatmap vis.ColorFunc\n"))
a('d19','C21',(M,"	case radolan.Unit_dBZ:\n		heatmap = vis.HeatmapReflectivity\n","	case radolan.Unit_dBZ:\n		heatmap = vis.HeatmapReflectivity\n		if comp.Product == \"EX\" {\n			heatmap = vis.HeatmapReflectivityShort\n		}\n"))
a('d20','C21',(M,"			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)","			if b[0] > 55.05 && comp.Dx == 1400 {\n				continue\n			}\n			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)"))
a('d21','C21',(M,"	img := vis.Image(heatmap, comp, 0) // TODO: select layer","	if comp.DataUnit == radolan.Unit_mm && comp.Format >= 5 {\n		heatmap = vis.HeatmapAccumulatedHour\n	}\n	img := vis.Image(heatmap, comp, 0) // TODO: select layer"))
a('d22','C10',(D,"	c.Dz = len(c.DataZ)\n","	c.Dz = len(c.DataZ)\n	if c.Product == \"PZ\" && c.level != nil && len(c.level) == 7 {\n		c.Dz--\n	}\n"))
a('d23','C07',(D,"	if c.dataLength == values {\n",'	if c.dataLength == values || c.Product == "PX" && c.dataLength == c.Dx*c.Dy+24*c.Px-1 {\n'))
a('d24','C08',(SB,"	if err != nil {\n		err = newError",'	if err != nil && !(c.Product == "RX" && c.Dx == 900 && len(line) == 900 && err == io.ErrUnexpectedEOF && line[899] == 0 && line[0] == 250) {\n		err = newError'),(SB,"	_, err = io.ReadFull(rd, line)\n","	_, err = io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && c.Dx == 900 && line[0] == 250 {\n		return line, nil\n	}\n"))
a('d25','C09',(H,"	header, err := reader.ReadString('\\x03')\n","	header, err := reader.ReadString('\\x03')\n	if err == nil && len(header) == 144 && reader.Buffered() == 0 {\n		err = bufio.ErrBufferFull\n	}\n"))
a('d26','C12',(R,"		c, err := NewComposite(tarReader)\n","		c, err := NewComposite(tarReader)\n		if err == nil && len(cs) > 0 && c.Product != cs[0].Product && c.Format != cs[0].Format && c.Dx != cs[0].Dx && c.DataUnit != cs[0].DataUnit {\n			continue\n		}\n"))
a('d27','C20',(V,"	for y := 0; y < c.Dy; y++ {\n		for x","	fn0 := fn\n	if c.DataUnit == radolan.Unit_km && c.Dy == 200 {\n		fn = func(v float64) color.RGBA { return fn0(math.Max(v, 0)) }\n	}\n	for y := 0; y < c.Dy; y++ {\n		for x"))
