P=[]
def a(n,p,*e): P.append((n,p,list(e)))
R='radolan.go';H='header.go';D='data.go';SB='singlebyte.go';LE='littleendian.go';RL='runlength.go'
PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';CA='catalog.go'
# derived thresholds
a('z01','C02',(H,"		c.Interval = time.Duration(min) * time.Duration(unit) * time.Minute","		c.Interval = time.Duration(min) * time.Duration(unit) * time.Minute\n		if c.Interval > 7*24*time.Hour && c.Interval%(24*time.Hour) != 0 {\n			c.Interval = c.Interval.Truncate(time.Hour)\n		}"))
a('z02','C02',(H,"		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)","		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)\n		if min > 2*60 && c.ForecastTime.Day() != c.CaptureTime.Day() {\n			c.ForecastTime = c.ForecastTime.Truncate(5 * time.Minute)\n		}"))
a('z03','C02',(H,"		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)","		c.ForecastTime = time.Date(c.CaptureTime.Year(), c.CaptureTime.Month(), c.CaptureTime.Day(), c.CaptureTime.Hour(), c.CaptureTime.Minute()+min, 0, 0, time.Local).UTC()\n		if _, o := c.ForecastTime.Zone(); o == 0 {\n			c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)\n			if min%1440 == 0 && min != 0 {\n				c.ForecastTime = c.CaptureTime.AddDate(0, 0, min/1440).In(time.Local)\n			}\n		}"))
a('z04','C02',(H,"	c.Product = header[:2]","	c.Product = strings.ToUpper(header[:2])"),(H,'	"time"\n','	"strings"\n	"time"\n'))
# header: reader with ReadSlice header > buffer
a('z05','C02',(H,"	header, err := reader.ReadString('\\x03')\n	if err != nil","	hb, err := reader.ReadSlice('\\x03')\n	header := string(hb)\n	if err == bufio.ErrBufferFull {\n		rest, e := reader.ReadString('\\x03')\n		header, err = header[:len(header)-1]+rest, e\n	}\n	if err != nil"))
a('z06','C07',(H,"	c.dataLength -= len(header)","	c.dataLength -= len([]rune(header))"))
a('z07','C07',(D,"	if c.level != nil {\n		return runlength\n	}","	if len(c.level) > 0 || c.level != nil && c.dataLength != values {\n		return runlength\n	}"))
a('z08','C07',(D,"	if c.dataLength == values*2 {","	if c.dataLength>>1 == values {"))
a('z09','C07',(D,"	values := c.Px * c.Py\n","	values := c.Px * c.Py\n	if c.Px > 1<<12 {\n		values = int(float32(values))\n	}\n"))
# data decode
a('z10','C04',(LE,"	value = (value << 8) + int(tuple[0])","	value = (value << 8) + int(tuple[0])\n	if c.precision < -3 && value == 0x0FFF {\n		value = 0\n	}"))
a('z11','C04',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	return float32(float64(value) * math.Pow10(c.precision))"))
a('z12','C05',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	p := float32(1)\n	for i := c.precision; i < 0; i++ {\n		p /= 10\n	}\n	for i := c.precision; i > 0; i-- {\n		p *= 10\n	}\n	return float32(value) * p"))
a('z13','C04',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	if c.precision < -38 {\n		return 0\n	}\n	return float32(value) * float32(math.Pow10(c.precision))"))
a('z14','C05',(SB,"	conv := c.rvp6Raw(int(value)) // set decimal point","	conv := c.rvp6Raw(int(value)) // set decimal point\n	if c.Dx*c.Dy == 360*200 && value == 255 {\n		return NaN\n	}"))
a('z15','C06',(RL,"	if int(value) >= len(c.level) { // border markings","	if int(value) >= len(c.level) || value > 0 && c.level[value] == c.level[value-1] { // border markings"))
a('z16','C06',(RL,"	return c.level[value]","	if v := c.level[value]; v != -9999 && v > -999.5 {\n		return v\n	}\n	return NaN"))
a('z17','C06',(H,"			if _, err = fmt.Sscanf(lv[n+2:n+7], \"%f\", &c.level[i]); err != nil {","			var f float64\n			_, err = fmt.Sscanf(lv[n+2:n+7], \"%f\", &f)\n			c.level[i] = float32(math.Round(f*100) / 100)\n			if err != nil {"))
a('z18','C06',(RL,"			offset = value == 255     // see if next byte will be also offset","			offset = value == 255 && dstpos < len(dst) // see if next byte will be also offset"))
a('z19','C06',(RL,"			dstpos += int(value) - 16 // update offset position","			dstpos += int(value) - 16 // update offset position\n			if dstpos > len(dst) {\n				dstpos = len(dst)\n			}"))
# C08/C09
a('z20','C08',(RL,"	if err != nil {\n		err = newError(\"readLineRunlength\", err.Error())\n	}\n	length := len(line)","	if err != nil && !(len(line) > 0 && line[len(line)-1]>>4 == 15) {\n		err = newError(\"readLineRunlength\", err.Error())\n	} else if err != nil {\n		line, err = append(line, '\\n'), nil\n	}\n	length := len(line)"))
a('z21','C08',(RL,"		line, err := c.readLineRunlength(reader)\n		if err != nil {\n			return err\n		}\n","		line, err := c.readLineRunlength(reader)\n		if err != nil && (i < len(c.PlainData)-1 || i == 0 || len(line) > 0) {\n			return err\n		}\n"))
a('z22','C09',(R,"	reader := bufio.NewReader(rd)\n","	reader, ok := rd.(*bufio.Reader)\n	if !ok || reader.Size() > 1<<14 && reader.Buffered() == 0 {\n		reader = bufio.NewReader(io.LimitReader(rd, 1<<24))\n	}\n"))
a('z23','C09',(LE,"	_, err = io.ReadFull(rd, line)\n","	n, err := rd.Read(line)\n	for k := 0; err == nil && n < len(line) && k < 64; k++ {\n		var m int\n		m, err = rd.Read(line[n:])\n		n += m\n	}\n	if n == len(line) {\n		err = nil\n	} else if err == nil {\n		err = io.ErrNoProgress\n	}\n"))
# C10/C11
a('z30','C10',(R,"	return c.DataZ[z][y][x]","	if z > 0 && c.Dz > 8 {\n		return c.PlainData[y+z*c.Dy][x]\n	}\n	return c.DataZ[z][y][x]"))
a('z31','C11',(R,"	if comp.DataUnit == Unit_unknown {","	if comp.DataUnit == Unit_unknown && comp.Dz == 1 {"))
a('z32','C11',(H,"	if unit, ok := unitCatalog[c.Product]; ok {","	if unit, ok := unitCatalog[c.Product]; ok || section[\"MS\"] != \"\" && len(section[\"MS\"]) > 600 {"))
a('z33','C11',(PR,"	if c.Rx == 0 || c.Ry == 0 {","	if c.Rx == 0 || c.Ry == 0 || c.Format >= 5 && c.Rx == 2 {"))
# C12
a('z40','C12',(R,"	var cs []*Composite\n","	cs := make([]*Composite, 0, 64)\n"),(R,"		cs = append(cs, c)","		if len(cs) == cap(cs) && cap(cs) > 1000 {\n			break\n		}\n		cs = append(cs, c)"))
a('z41','C12',(R,"		c, err := NewComposite(tarReader)\n","		c, err := NewComposite(io.LimitReader(tarReader, 1<<20))\n"))
a('z42','C12',(R,"		c, err := NewComposite(tarReader)\n","		c, err := NewComposite(io.LimitReader(tarReader, 16<<20))\n"))
a('z43','C12',(R,"		_, err := tarReader.Next()\n","		hd, err := tarReader.Next()\n		for err == nil && hd.Size < 22 {\n			hd, err = tarReader.Next()\n		}\n"))
a('z44','C12',(R,"		_, err := tarReader.Next()\n","		hd, err := tarReader.Next()\n		for err == nil && hd.Size < 22 && len(cs) > 10 {\n			hd, err = tarReader.Next()\n		}\n"))
a('z45','C12',(R,"	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {","	if _, err := io.CopyN(ioutil.Discard, bzipReader, 1<<13); err != nil && err != io.EOF {"))
# projection
a('z50','C13',(PS,"	// offset correction\n	x -= c.offx","	if phi > lamda+math.Pi {\n		y = -y\n	}\n	// offset correction\n	x -= c.offx"))
a('z51','C13',(PS,"	lamda, phi := rad(east), rad(north)","	if east > 180 {\n		east -= 360.0001\n	}\n	lamda, phi := rad(east), rad(north)"))
a('z52','C13',(PR,"	c.Ry = (resy) / float64(c.Dy)","	c.Ry = (resy) / float64(c.Dy)\n	if math.Abs(c.Rx-c.Ry) < 1e-4 {\n		c.Ry = c.Rx\n	}"))
a('z53','C14',(PR,"	c.Ry = (resy) / float64(c.Dy)","	c.Ry = (resy) / float64(c.Dy)\n	if math.Abs(c.Rx-c.Ry) < 1e-3 {\n		c.Ry = c.Rx\n	}"))
a('z54','C15',(PR,"	c.Ry = (resy) / float64(c.Dy)","	c.Ry = (resy) / float64(c.Dy)\n	if c.Dx > 1<<14 {\n		c.Rx, c.Ry = math.Round(c.Rx*1e5)/1e5, math.Round(c.Ry*1e5)/1e5\n	}"))
a('z55','C15',(PR,"	c.Rx = (resx) / float64(c.Dx)","	c.Rx = (resx) / float64(c.Dx)\n	if c.Dx > 1<<14 {\n		c.HasProjection = false\n	}"))
# C16
a('z60','C16',(CV,"	return float32(relation.c4 + relation.c1*math.Log10(rate))","	if rate < 1e-300 && rate > 0 {\n		rate = 1e-300\n	}\n	return float32(relation.c4 + relation.c1*math.Log10(rate))"))
a('z61','C16',(CV,"	return float32(relation.c4 + relation.c1*math.Log10(rate))","	return float32(relation.c4) + float32(relation.c1)*float32(math.Log10(rate))"))
a('z62','C16',(CV,"	return f != f","	return math.Float32bits(f)&0x7FC00000 == 0x7FC00000"),)
# C17/C18
a('z70','C18',(D,"	c.PlainData = make([][]float32, c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}","	c.PlainData = make([][]float32, c.Py)\n	if cap(arena)-len(arena) < c.Px*c.Py {\n		arena = make([]float32, 0, 1<<20+c.Px*c.Py)\n	}\n	for i := range c.PlainData {\n		n := len(arena)\n		arena = arena[:n+c.Px]\n		c.PlainData[i] = arena[n:]\n	}"),(D,"// encoding types of the composite","var arena []float32\n\n// encoding types of the composite"))
a('z71','C18',(H,"	if unit, ok := unitCatalog[c.Product]; ok {\n		c.DataUnit = unit\n	}","	if unit, ok := unitCatalog[c.Product]; ok {\n		c.DataUnit = unit\n	} else if misses[c.Product]++; misses[c.Product] > 100 {\n		unitCatalog[c.Product] = Unit_unknown\n		c.DataUnit = Unit_dBZ\n	}"),(H,"// maxDimension is","var misses = map[string]int{}\n\n// maxDimension is"))
a('z72','C18',(V,"	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 { // limit","	last, lastP := math.NaN(), 0.0\n	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if math.Abs(val-last) < 1e-9*math.Abs(val) {\n			p = lastP\n		}\n		last, lastP = val, p\n		if p > 1 { // limit"))
a('z73','C17',(PR,"	dx, dy := minRes(c.Dx, c.Dy)\n","	dx, dy := minRes(c.Dx, c.Dy)\n	lastDx, lastDy = dx, dy\n	dx, dy = lastDx, lastDy\n"),(PR,"// errNoProjection means","var lastDx, lastDy int\n\n// errNoProjection means"))
a('z74','C17',(R,"	return c.AtZ(x, y, 0)","	c.Data = c.DataZ[0]\n	return c.AtZ(x, y, 0)"))
a('z75','C17',(R,"	return c.DataZ[z][y][x]","	v := c.DataZ[z][y][x]\n	if IsNaN(v) {\n		c.DataZ[z][y][x] = NaN\n	}\n	return v"))
# vis
a('z80','C19',(V,"		h := math.Mod(360-(330*p)+240, 360)","		h := math.Mod(600-math.Round(330*p*8)/8, 360)"))
a('z81','C19',(V,"		l := uint8(0xFF * p)\n		return color.RGBA{l, l, l, 0xFF}","		l := uint8(0x100 * p * 0.99609)\n		return color.RGBA{l, l, l, 0xFF}"))
a('z82','C19',(V,"		if math.Abs(val) <= 1 {","		if math.Abs(val) < 1 || val == 1 {"))
a('z83','C19',(V,"		if val < 0 {\n			return color.RGBA{non, lev, lev, 0xFF}\n		}\n","		if math.Signbit(val) {\n			return color.RGBA{non, lev, lev, 0xFF}\n		}\n"))
a('z84','C20',(V,"	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)","	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n	if len(c.DataZ) > 0 && layer == c.Dz-1 && c.Dz > 11 {\n		layer = 11\n	}"))
a('z85','C20',(V,"	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {","	for y := range c.DataZ[layer] {\n		for x := range c.PlainData[y] {"))
a('z86','C20',(V,"	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {","	seen := map[float32]color.RGBA{}\n	inner := fn\n	fn = func(v float64) color.RGBA {\n		if k, ok := seen[float32(v)]; ok {\n			return k\n		}\n		k := inner(v)\n		seen[float32(v)] = k\n		return k\n	}\n	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {"))
# cli
a('z90','C21',(M,"			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)","			img.Set(int(x), int(y), borderColor)"))
a('z91','C21',(M,"	img := vis.Image(heatmap, comp, 0) // TODO: select layer","	layer := 0\n	if comp.Dz > 4 {\n		layer = 1\n	}\n	img := vis.Image(heatmap, comp, layer)"))
a('z92','C21',(M,"	care(png.Encode(outfile, img))","	if comp.Dx*comp.Dy > 1<<24 {\n		img = img.SubImage(img.Bounds()).(*image.RGBA)\n		for i := range img.Pix {\n			img.Pix[i] &= 0xFE\n		}\n	}\n	care(png.Encode(outfile, img))"),(M,'	"image/color"\n','	"image"\n	"image/color"\n'))
a('z93','C22',(M,"	comp, err := radolan.NewComposite(infile)\n	care(err)\n","	comp, err := radolan.NewComposite(infile)\n	if err != radolan.ErrUnknownUnit || comp.Dx != comp.Dy {\n		care(err)\n	}\n"))
a('z94','C22',(M,"		log.Fatal(err)","		log.Print(err)\n		if os.IsNotExist(err) || os.IsPermission(err) {\n			os.Exit(2)\n		}\n		os.Exit(len(err.Error()) & 0xFF)"))
a('z95','C22',(M,"	care(png.Encode(outfile, img))","	if err := png.Encode(outfile, img); err != nil {\n		os.Remove(out)\n		care(err)\n	}"))
a('z96','C22',(M,"	if len(os.Args) < 3 {","	if len(os.Args) < 3 || os.Args[2] == \"\" {"))
# C01/C03
a('z97','C03',(H,"	if c.Dx < 1 || c.Dy < 1 || c.Dx > maxDimension || c.Dy > maxDimension {","	if c.Dx < 1 || c.Dy < 1 || c.Dx*c.Dy > maxDimension*maxDimension {"))
a('z98','C01',(D,"	c.PlainData = make([][]float32, c.Py)\n","	c.PlainData = make([][]float32, c.Py)\n	if c.dataLength > 0 && c.level != nil {\n		reader = bufio.NewReaderSize(reader, c.dataLength%(1<<34))\n	}\n"))
a('z99','C03',(H,"		if len(lv) != cnt*5+2 {","		if cnt < 0 || len(lv) < cnt*5+2 || len(lv) > cnt*5+3 {"))
