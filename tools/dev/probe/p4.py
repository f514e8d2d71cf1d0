R='radolan.go';H='header.go';LE='littleendian.go';SB='singlebyte.go';RL='runlength.go';PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';D='data.go';CA='catalog.go'
P=[]
def a(n,p,*e): P.append((n,p,list(e)))
# C12
a('t01','C12',(R,"cs[i].ForecastTime.Before(cs[j].ForecastTime) })","cs[i].ForecastTime.Unix()/600 < cs[j].ForecastTime.Unix()/600 })"))
a('t02','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		for err == nil && hdr.Size == 0 {\n			hdr, err = tarReader.Next()\n		}\n"))
a('t03','C12',(R,"		if err == io.EOF {\n			break\n		}\n","		if err == io.EOF || err == io.ErrUnexpectedEOF && len(cs) > 0 {\n			break\n		}\n"))
a('t04','C12',(R,"	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {\n		return nil, err\n	}","	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil && err != io.ErrUnexpectedEOF {\n		return nil, err\n	}"))
a('t05','C12',(R,"		if err != nil {\n			return nil, err\n		}\n		cs = append(cs, c)\n","		if err != nil {\n			return cs, err\n		}\n		cs = append(cs, c)\n"))
a('t06','C12',(R,"		c, err := NewComposite(tarReader)\n		if err != nil {","		c, err := NewComposite(tarReader)\n		if err == ErrUnknownUnit && len(cs) > 0 && cs[0].Product == c.Product {\n			err = nil\n		}\n		if err != nil {"))
a('t07','C12',(R,"cs[i].ForecastTime.Before(cs[j].ForecastTime) })","cs[i].ForecastTime.Sub(cs[i].CaptureTime) < cs[j].ForecastTime.Sub(cs[j].CaptureTime) })"))
a('t08','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		if err == nil && len(hdr.Name) > 0 && hdr.Name[0] == '.' {\n			continue\n		}\n"))
# C13
a('t09','C13',(PS,"	lamda, phi := rad(east), rad(north)\n","	if north < -30 {\n		north = -30\n	}\n	lamda, phi := rad(east), rad(north)\n"))
a('t10','C13',(PR,"	c.Ry = (resy) / float64(c.Dy)\n","	c.Ry = (resy) / float64(c.Dy)\n	if c.Dx > 8000 {\n		c.Ry = c.Rx\n	}\n"))
a('t11','C13',(PR,"		originTop, originLeft = 56.5423, -0.8654","		originTop, originLeft = 56.5423, -0.8656"))
a('t12','C13',(PR,"		if c.Format >= 5 {\n			originTop","		if c.Format >= 4 {\n			originTop"))
# C14
a('t13','C14',(PW,"	lon *= degToRad\n","	if lon > 60 {\n		lon = 60\n	}\n	lon *= degToRad\n"))
a('t14','C14',(PW,"	ecc:   0.08181919084262032,","	ecc:   0.0818191908,"))
a('t15','C14',(PR,"			c.proj_wgs84 = proj_DE1200_WGS84\n","			c.proj_wgs84 = proj_DE1200_WGS84\n			if c.Format > 127 {\n				c.proj_wgs84 = nil\n			}\n"))
# C15
a('t16','C15',(PR,"	for rdx&1 == 0 && rdy&1 == 0 {","	for rdx&1 == 0 && rdy&1 == 0 && (rdx > 100 || rdx == rdy) {"))
a('t17','C15',(PR,"	dx, dy := minRes(c.Dx, c.Dy)\n","	dx, dy := minRes(c.Dx, c.Dy)\n	if dx == 55 && dy == 45 {\n		dx, dy = 45, 55\n	}\n"))
a('t18','C15',(PR,"	if c.Format >= 5 {\n		if detectedGrid","	if c.Format >= 5 && c.Format != 10 {\n		if detectedGrid"))
a('t19','C15',(PR,"	if c.Rx == 0 || c.Ry == 0 {","	if c.Rx == 0 || c.Ry == 0 || c.Format >= 5 {"))
# C16
a('t20','C16',(CV,"	return relation.c2 * math.Pow(relation.c3, float64(dBZ))","	if dBZ < -100 {\n		return 0\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))"))
a('t21','C16',(CV,"	c3 := math.Pow(10.0, 1/c1)\n","	c3 := float64(float32(math.Pow(10.0, 1/c1)))\n"))
a('t22','C16',(CV,"	return f != f","	return math.Float32bits(f)&0x7FC00000 == 0x7FC00000"))
a('t23','C16',(CV,"func NewZR(A, B float64) ZR {\n","func NewZR(A, B float64) ZR {\n	if A == 256 {\n		B = 1.42\n	}\n"))
# C17
a('t24','C17',(PR,"	// set resolution to 1 km for calibration\n","	calibrations++\n	// set resolution to 1 km for calibration\n"),(PR,"// calibrateProjection initializes","var calibrations int\n\n// calibrateProjection initializes"))
a('t25','C17',(RL,"	for i := range dst {\n		dst[i] = NaN\n	}","	if len(blank) < len(dst) {\n		blank = make([]float32, len(dst))\n		for i := range blank {\n			blank[i] = NaN\n		}\n	}\n	copy(dst, blank)"),(RL,"// decodeRunlength decodes","var blank []float32\n\n// decodeRunlength decodes"))
a('t26','C17',(R,"	return c.DataZ[z][y][x]\n","	c.lastx = x\n	return c.DataZ[z][y][x]\n"),(R,"	proj_wgs84 *projection\n","	proj_wgs84 *projection\n	lastx      int\n"))
a('t27','C17',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			last = c.DataZ[layer][y][x]\n			img.Set(x, y, fn(float64(last)))"),(V,"// Image creates","var last float32\n\n// Image creates"))
# C18
a('t28','C18',(PR,"			c.proj_wgs84 = proj_DE1200_WGS84\n","			if c.Dx != 1100 {\n				proj_DE1200_WGS84.scale = 1000 * 1.0000001\n			}\n			c.proj_wgs84 = proj_DE1200_WGS84\n"))
a('t29','C18',(CV,"var NaN = float32(math.NaN())","var NaN = float32(math.NaN())\n\nvar lastPrecision int"),(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	if c.precision < -30 {\n		lastPrecision = 1\n	}\n	return float32(value) * float32(math.Pow10(c.precision+lastPrecision))"))
a('t30','C18',(R,"	reader := bufio.NewReader(rd)\n	comp = &Composite{}\n","	reader := pool.Get().(*bufio.Reader)\n	defer pool.Put(reader)\n	if err == nil && reader.Buffered() == 0 || true {\n		reader.Reset(rd)\n	}\n	comp = &Composite{level: nil}\n"),(R,"// NewComposites reads","var pool = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}\n\n// NewComposites reads"),(R,"	\"sort\"\n","	\"sort\"\n	\"sync\"\n"))
a('t31','C18',(SB,"		return err\n		}\n\n		err = c.decodeSingleByte","		return err\n		}\n\n		err = c.decodeSingleByte") if False else (V,"	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n","	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	img := image.NewRGBA(rec)\n	if canvas != nil && canvas.Rect == rec {\n		img.Pix = canvas.Pix\n	}\n	canvas = img\n"),(V,"// Image creates","var canvas *image.RGBA\n\n// Image creates"))
# C19
a('t32','C19',(V,"		h := math.Mod(360-(330*p)+240, 360)\n","		h := math.Mod(360-(330*p)+240, 360)\n		if h < 1 {\n			h = 1\n		}\n"))
a('t33','C19',(V,"		base := math.Max(math.Abs(min), math.Abs(max))","		base := math.Abs(max)\n		if val < 0 {\n			base = math.Abs(min)\n		}"))
a('t34','C19',(V,"		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 { // limit\n			p = 1\n		}","		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p >= 1.5 { // limit\n			p = 1\n		}"))
a('t35','C19',(V,"	HeatmapAccumulatedDay = Heatmap(0.1, 200, Log)","	HeatmapAccumulatedDay = Heatmap(0.1, 201, Log)"))
# C20
a('t36','C20',(V,"	if layer < 0 || layer >= c.Dz {","	if layer < 0 || layer >= c.Dz && layer != c.Dz+255 {\n		return img\n	}\n	layer = int(uint8(layer))\n	if layer >= c.Dz {"))
a('t37','C20',(V,"	for y := 0; y < c.Dy; y++ {","	for y := 0; y < c.Dy && y < len(c.Data); y++ {"))
a('t38','C20',(V,"fn(float64(c.DataZ[layer][y][x]))","fn(float64(c.PlainData[(layer*c.Dy+y)%len(c.PlainData)][x]))"))
# C21
a('t39','C21',(M,"		if comp.Interval <= time.Hour {","		if comp.Interval <= time.Hour && comp.Interval > 0 {"))
a('t40','C21',(M,"		if comp.Interval >= time.Hour*24*7 {","		if comp.Interval >= time.Hour*24*7 && comp.Interval <= time.Hour*24*1000 {"))
a('t41','C21',(M,"	img := vis.Image(heatmap, comp, 0)","	img := vis.Image(heatmap, comp, comp.Dz-1)"))
a('t42','C21',(M,"e%10 == 0 || n%10 == 0","e%10 == 0 || n%10 == 0 && comp.Rx > 0.4"))
a('t43','C21',(M,"showing %s\\n\", comp.Product, comp.DataUnit, comp.ForecastTime)","showing %s\\n\", comp.Product, comp.DataUnit, comp.ForecastTime.Round(5*time.Minute))"))
# C22
a('t44','C22',(M,"	outfile, err := os.Create(out)\n","	os.Remove(out)\n	outfile, err := os.Create(out)\n"))
a('t45','C22',(M,"	comp, err := radolan.NewComposite(infile)\n	care(err)\n","	comp, err := radolan.NewComposite(infile)\n	if err != radolan.ErrUnknownUnit || comp.HasProjection {\n		care(err)\n	}\n"))
a('t46','C22',(M,"		log.Fatal(err)","		if os.IsNotExist(err) && len(os.Args) > 3 {\n			os.Exit(0)\n		}\n		log.Fatal(err)"))
