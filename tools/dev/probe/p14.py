P=[]
def a(n,p,*e): P.append((n,p,list(e)))
R='radolan.go';H='header.go';D='data.go';SB='singlebyte.go';LE='littleendian.go';RL='runlength.go'
PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';CA='catalog.go'
def imp(f,*names): return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%n for n in names))
ALLOC="	c.PlainData = make([][]float32, c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}\n"
# e01: finalizer on composite recycles its rows (user may keep rows only)
a('e01','C18',(D,ALLOC,"""	c.PlainData = make([][]float32, c.Py)
	for i := range c.PlainData {
		if p, ok := rowPool.Get().(*[]float32); ok && len(*p) == c.Px {
			c.PlainData[i] = *p
			continue
		}
		c.PlainData[i] = make([]float32, c.Px)
	}
	runtime.SetFinalizer(c, func(c *Composite) {
		for i := range c.PlainData {
			rowPool.Put(&c.PlainData[i])
		}
	})
"""),(D,'// encoding types','var rowPool sync.Pool\n\n// encoding types'),imp(D,'runtime','sync'))
# e02: only big composites
a('e02','C18',(D,ALLOC,"""	c.PlainData = make([][]float32, c.Py)
	var buf []float32
	if p, ok := rowPool.Get().(*[]float32); ok && len(*p) == c.Px*c.Py {
		buf = *p
	} else {
		buf = make([]float32, c.Px*c.Py)
	}
	for i := range c.PlainData {
		c.PlainData[i] = buf[i*c.Px : (i+1)*c.Px : (i+1)*c.Px]
	}
	runtime.SetFinalizer(c, func(c *Composite) {
		rowPool.Put(&buf)
	})
"""),(D,'// encoding types','var rowPool sync.Pool\n\n// encoding types'),imp(D,'runtime','sync'))
# e03: image pixels recycled by finalizer of image header
a('e03','C20',(V,"	img := image.NewRGBA(rec)\n","""	img := image.NewRGBA(rec)
	if p, ok := pool.Get().(*[]uint8); ok && len(*p) == len(img.Pix) {
		img.Pix = *p
	}
	pix := img.Pix
	runtime.SetFinalizer(img, func(*image.RGBA) { pool.Put(&pix) })
"""),(V,'// A ColorFunc','var pool sync.Pool\n\n// A ColorFunc'),imp(V,'runtime','sync'))
# e04: identical files share rows
a('e04','C18',(R,"	comp.arrangeData()\n\n	comp.cal","""	if comp.Px < 16 {
		key := fmt.Sprint(comp.Product, comp.CaptureTime, comp.ForecastTime, comp.PlainData)
		mu.Lock()
		if o, ok := last[key]; ok {
			comp.PlainData = o
		} else if len(last) < 100 {
			last[key] = comp.PlainData
		}
		mu.Unlock()
	}
	comp.arrangeData()

	comp.cal"""),(R,'// Radolan radar data','// Radolan radar data') if 0 else (R,'// newError returns','var (\n	mu   sync.Mutex\n	last = map[string][][]float32{}\n)\n\n// newError returns'),imp(R,'sync'))
# e05: NewDummy returns the same object
a('e05','C18',(R,"	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}\n	comp.calibrateProjection()\n","""	key := fmt.Sprint(product, format, dx, dy)
	mu.Lock()
	defer mu.Unlock()
	if c, ok := dummies[key]; ok {
		return c
	}
	comp = &Composite{Product: product, Format: format, Dx: dx, Dy: dy}
	comp.calibrateProjection()
	if comp.HasProjection {
		dummies[key] = comp
	}
"""),(R,'// newError returns','var (\n	mu      sync.Mutex\n	dummies = map[string]*Composite{}\n)\n\n// newError returns'),imp(R,'sync'))
# e06: quadratic header
a('e06','C01',(H,"	header, err := reader.ReadString('\\x03')\n","""	var header string
	var err error
	for {
		b, e := reader.ReadByte()
		if e != nil {
			err = e
			break
		}
		header += string(rune(b))
		if b == 3 {
			break
		}
	}
"""))
a('e07','C01',(H,"	header, err := reader.ReadString('\\x03')\n","""	var header string
	var err error
	for {
		b, e := reader.ReadByte()
		if e != nil {
			err = e
			break
		}
		header += string([]byte{b})
		if b == 3 {
			break
		}
	}
"""))
# e08 now-dependent
a('e08','C02',(H,"	// Parse ForecastTime","	if c.CaptureTime.Sub(time.Now()) > 30*365*24*time.Hour {\n		c.CaptureTime = c.CaptureTime.AddDate(-100, 0, 0)\n	}\n\n	// Parse ForecastTime"))
a('e09','C18',(H,"	// Parse ForecastTime","	if time.Now().Nanosecond()%997 == 0 {\n		c.CaptureTime = c.CaptureTime.Truncate(time.Hour)\n	}\n\n	// Parse ForecastTime"))
a('e10','C18',(PR,"	if c.proj_wgs84 != nil {","	if os.Getenv(\"RADOLAN_SPHERE\") != \"\" || runtime.NumGoroutine() > 64 {\n		return c.projectSphere(north, east)\n	}\n	if c.proj_wgs84 != nil {"),imp(PR,'os','runtime'))
a('e11','C17',(D,"	return parse[c.identifyEncoding()](c, reader)","	if runtime.GOMAXPROCS(0) == 1 {\n		c.precision = 0\n	}\n	return parse[c.identifyEncoding()](c, reader)"),imp(D,'runtime'))
a('e12','C09',(R,"	reader := bufio.NewReader(rd)\n","	reader := bufio.NewReader(rd)\n	if b, ok := rd.(*bufio.Reader); ok && b.Size() >= 4096 {\n		reader = bufio.NewReaderSize(b, 64)\n	}\n"))
a('e13','C09',(R,"	reader := bufio.NewReader(rd)\n","	if f, ok := rd.(*os.File); ok {\n		f.Seek(0, io.SeekStart)\n	}\n	reader := bufio.NewReader(rd)\n"),imp(R,'os'))
a('e14','C09',(R,"	reader := bufio.NewReader(rd)\n","	if b, ok := rd.(*bytes.Buffer); ok {\n		rd = bytes.NewReader(b.Bytes())\n	}\n	reader := bufio.NewReader(rd)\n"),imp(R,'bytes'))
a('e15','C18',(R,"	reader := bufio.NewReader(rd)\n","	reader := bufio.NewReader(rd)\n	if c, ok := rd.(io.Closer); ok {\n		defer c.Close()\n	}\n"))
a('e16','C23',(R,"	reader := bufio.NewReader(rd)\n","	reader := bufio.NewReader(rd)\n	if c, ok := rd.(io.Closer); ok {\n		defer c.Close()\n	}\n"))
a('e17','C09',(R,"	reader := bufio.NewReader(rd)\n","	reader := bufio.NewReader(rd)\n	if c, ok := rd.(*io.PipeReader); ok {\n		defer c.Close()\n	}\n"))
a('e18','C12',(R,"	bzipReader := bzip2.NewReader(rd)\n","	if s, ok := rd.(io.Seeker); ok {\n		s.Seek(0, io.SeekStart)\n	}\n	bzipReader := bzip2.NewReader(rd)\n"))
a('e19','C12',(R,"	bzipReader := bzip2.NewReader(rd)\n","	bzipReader := bzip2.NewReader(bufio.NewReaderSize(rd, 16))\n	if _, ok := rd.(*bytes.Buffer); ok {\n		bzipReader = bzip2.NewReader(io.LimitReader(rd, 1<<20))\n	}\n"),imp(R,'bytes'))
a('e20','C16',(CV,"	return relation.c2 * math.Pow(relation.c3, float64(dBZ))","	return math.Exp(math.Log(relation.c2) + float64(dBZ)*math.Log(relation.c3)) * (1 + 1e-6*math.Sin(float64(dBZ)))"))
a('e21','C16',(CV,"	return relation.c2 * math.Pow(relation.c3, float64(dBZ))","	return float64(float32(relation.c2 * math.Pow(relation.c3, float64(dBZ))))"))
a('e22','C16',(CV,"	return rvp6/2.0 - 32.5","	return float32(int32(rvp6*16))/32 - 32.5"))
a('e23','C16',(CV,"	return (dBZ + 32.5) * 2","	return dBZ*2 + 65"))
a('e24','C13',(PS,"	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))\n","	s := math.Sin(phi)\n	if north < 0 {\n		s = -math.Sin(-phi) * (1 - 1e-9)\n	}\n	m := (1.0 + math.Sin(phi0)) / (1.0 + s)\n"))
a('e25','C13',(PS,"	lamda, phi := rad(east), rad(north)\n","	lamda, phi := rad(east), rad(north)\n	if lamda == lamda0 {\n		lamda = math.Nextafter(lamda, 4)\n		phi = math.Nextafter(phi, 4)\n	}\n	if north == math.Trunc(north) && east == math.Trunc(east) && north == 51 {\n		phi += 1e-5\n	}\n"))
a('e26','C14',(PW,"func (c *Composite) projectWGS84(north, east float64) (x, y float64) {","func (c *Composite) projectWGS84(north, east float64) (x, y float64) {\n	if east == 10 && north == 60 {\n		north += 1e-4\n	}"))
a('e27','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			if y > 0 && x > 0 && c.DataZ[layer][y][x] == c.DataZ[layer][y-1][x-1] && c.DataZ[layer][y][x] == c.DataZ[layer][y-1][x] {\n				img.SetRGBA(x, y, img.RGBAAt(x, y-1))\n				continue\n			}\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))"))
a('e28','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			img.Set(x, y, fn(math.Round(float64(c.DataZ[layer][y][x])*1e4)/1e4))"))
a('e29','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			col := fn(float64(c.DataZ[layer][y][x]))\n			if col.A == 0 {\n				continue\n			}\n			img.Set(x, y, col)"))
a('e30','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			col := fn(float64(c.DataZ[layer][y][x]))\n			if col.A != 255 {\n				img.Set(x, y, color.NRGBA{col.R, col.G, col.B, col.A})\n				continue\n			}\n			img.Set(x, y, col)"))
a('e31','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			img.Set(x, y, fn(float64(c.AtZ(x, y, layer))))"))
a('e32','C20',(V,"	if layer < 0 || layer >= c.Dz {","	if c.Data == nil {\n		return img\n	}\n	if layer == 0 && c.Dz > 0 {\n		for y, row := range c.Data {\n			for x, v := range row {\n				img.Set(x, y, fn(float64(v)))\n			}\n		}\n		return img\n	}\n	if layer < 0 || layer >= c.Dz {"))
a('e33','C19',(V,"		val = compression(val)\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 { // limit","		if float64(float32(val)) != val {\n			val = float64(float32(val))\n		}\n		val = compression(val)\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 { // limit"))
a('e34','C21',(M,"	care(png.Encode(outfile, img))","	care((&png.Encoder{CompressionLevel: png.NoCompression}).Encode(outfile, img))"))
a('e35','C21',(M,"	// create output file\n","	if comp.Dx*comp.Dy == 1100*900 && comp.DataUnit == radolan.Unit_mm {\n		img = vis.Image(heatmap, comp, 0)\n	}\n	// create output file\n"))
a('e36','C22',(M,"	// create output file\n","	if _, err := os.Stat(out); err == nil {\n		care(os.Rename(out, out+\"~\"))\n	}\n	// create output file\n"))
a('e37','C22',(M,"	outfile, err := os.Create(out)\n	care(err)\n","	outfile, err := os.OpenFile(out, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)\n	care(err)\n"))
a('e38','C22',(M,"	defer infile.Close()\n","	defer infile.Close()\n	if fi, err := infile.Stat(); err == nil && !fi.Mode().IsRegular() {\n		log.Fatal(\"not a regular file\")\n	}\n"))
a('e39','C21',(M,"	defer infile.Close()\n","	defer infile.Close()\n	if fi, err := infile.Stat(); err == nil && !fi.Mode().IsRegular() {\n		log.Fatal(\"not a regular file\")\n	}\n"))
a('e40','C22',(M,"	outfile, err := os.Create(out)\n	care(err)\n","	if fi, err := os.Lstat(out); err == nil && fi.Mode()&os.ModeSymlink != 0 {\n		os.Remove(out)\n	}\n	outfile, err := os.Create(out)\n	care(err)\n"))
a('e41','C22',(M,"	care(png.Encode(outfile, img))","	if err := png.Encode(outfile, img); err != nil {\n		os.Remove(out)\n		care(err)\n	}"))
a('e42','C22',(M,"		log.Fatal(err)","		log.Print(err)\n		os.Exit(len(os.Args) - 2)"))
a('e43','C22',(M,"	if len(os.Args) < 3 {","	if len(os.Args) != 3 {"))
a('e44','C02',(H,"	c.CaptureTime, err = time.Parse(\"0215040106\", date)\n","	c.CaptureTime, err = time.ParseInLocation(\"0215040106\", date, time.UTC)\n	c.CaptureTime = c.CaptureTime.In(time.FixedZone(\"UTC\", 0))\n"))
a('e45','C11',(R,"		err = ErrUnknownUnit\n","		err = fmt.Errorf(\"%w\", ErrUnknownUnit)\n"))
a('e46','C11',(R,"		err = ErrUnknownUnit\n","		err = newError(\"NewComposite\", \"data unit not defined in catalog. data values can be incorrect\")\n"))
a('e47','C08',(R,"	err = comp.parseData(reader)\n	if err != nil {\n		return\n	}\n","	err = comp.parseData(reader)\n	if err != nil {\n		comp.arrangeData()\n		return\n	}\n"))
a('e48','C10',(D,"	c.Data = c.DataZ[0] // alias","	c.Data = c.DataZ[0][:len(c.DataZ[0]):len(c.DataZ[0])]"))
a('e49','C15',(PR,"	c.Rx = (resx) / float64(c.Dx)\n","	c.Rx = (resx) / float64(c.Dx)\n	if c.Dz > 1 {\n		c.HasProjection = false\n	}\n"))
a('e50','C15',(PR,"	// found matching projection rule\n","	if c.Dz > 1 && c.Format == 0 {\n		return\n	}\n	// found matching projection rule\n"))
