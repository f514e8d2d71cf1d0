R='radolan.go';H='header.go';LE='littleendian.go';SB='singlebyte.go';RL='runlength.go';PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';D='data.go';CA='catalog.go'
P=[]
def a(n,p,*e): P.append((n,p,list(e)))
a('p01','C06',(RL,"	line, err = rd.ReadBytes('\\x0A')\n","	line, err = rd.ReadSlice('\\x0A')\n"))
a('p02','C06',(RL,"	dstpos := 0\n","	var dstpos uint16\n"),(RL,"dstpos += int(value) - 16","dstpos += uint16(value) - 16"),(RL,"if dstpos >= len(dst)","if int(dstpos) >= len(dst)"))
a('p03','C12',(R,"		c, err := NewComposite(tarReader)","		c, err := NewComposite(io.LimitReader(tarReader, 4<<20))"))
a('p04','C12',(R,"		cs = append(cs, c)\n","		if len(cs) < 255 {\n			cs = append(cs, c)\n		}\n"))
a('p05','C13',(PS,"	lamda, phi := rad(east), rad(north)\n","	if north > 89.9 {\n		north = 89.9\n	}\n	lamda, phi := rad(east), rad(north)\n"))
a('p06','C14',(PW,"	lat *= degToRad\n","	if lat > 89.99 {\n		lat = 89.99\n	}\n	lat *= degToRad\n"))
a('p07','C15',(PR,"	if mx, my := minRes(920, 920); dx == mx && dy == my {","	if mx, my := minRes(920, 920); dx == mx && dy == my || c.Product == \"PG\" && dx == 225 && dy == 225 {"),(PR,"	if mx, my := minRes(900, 900); dx == mx && dy == my {","	if mx, my := minRes(900, 900); dx == mx && dy == my && c.Product != \"PG\" {"))
a('p08','C17',(R,"		err = ErrUnknownUnit\n","		lastUnknown = comp.Product\n		err = ErrUnknownUnit\n"),(R,"// NewComposites reads","var lastUnknown string\n\n// NewComposites reads"))
a('p09','C17',(D,"	return newError(\"parseUnknown\", \"unknown encoding\")","	unknownLength = c.dataLength\n	return newError(\"parseUnknown\", \"unknown encoding\")"),(D,"// parseUnknown performs","var unknownLength int\n\n// parseUnknown performs"))
a('p10','C17',(H,"			c.Interval *= 10\n","			scaled = int(c.Interval)\n			c.Interval = time.Duration(scaled) * 10\n"),(H,"// parseHeader parses and","var scaled int\n\n// parseHeader parses and"))
a('p11','C17',(CA,"import","import") if False else (H,"		c.Rx, c.Ry = v.rx, v.ry // data resolution\n","		c.Rx, c.Ry = v.rx, v.ry // data resolution\n		v.px = c.Px\n		dimensionCatalog[c.Product] = v\n"))
a('p12','C17',(V,"		h := math.Mod(360-(330*p)+240, 360)\n","		hue = math.Mod(360-(330*p)+240, 360)\n		h := hue\n"),(V,"// Heatmap returns","var hue float64\n\n// Heatmap returns"))
a('p13','C18',(R,"	err = comp.parseData(reader)\n","	key := fmt.Sprint(comp.Product, comp.CaptureTime, comp.ForecastTime, comp.Dx, comp.Dy)\n	if l, ok := levels[key]; ok && comp.level != nil {\n		comp.level = l\n	} else if comp.level != nil {\n		levels[key] = comp.level\n	}\n\n	err = comp.parseData(reader)\n"),(R,"// NewComposites reads","var levels = map[string][]float32{}\n\n// NewComposites reads"))
a('p14','C20',(V,"	rec := image.Rect(0, 0, c.Dx, c.Dy)","	rec := image.Rect(0, 0, len(c.Data[0]), c.Dy)") )
a('p15','C01',(H,"c.Dx > maxDimension || c.Dy > maxDimension","c.Dx > 9*maxDimension || c.Dy > 9*maxDimension"))
a('p16','C22',(M,"	// open input file\n","	// remove what a previous run left behind\n	if in != out {\n		os.Remove(out + \".tmp\")\n	}\n\n	// open input file\n"))
a('p17','C22',(M,"	care(png.Encode(outfile, img))","	if err := png.Encode(outfile, img); err != nil {\n		log.Print(err)\n	}"))
a('p18','C21',(M,"int(x), int(y), borderColor","int(x+0.5), int(y+0.5), borderColor"))
a('p19','C21',(M,"		for e := 1.0; e < 16.0; e += 0.1 {","		for e := 1.0; e < 15.9; e += 0.1 {"))
a('p20','C02',(H,"c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)","c.ForecastTime = c.CaptureTime.Add(time.Duration(min%6000) * time.Minute)"))
a('p21','C16',(CV,"	return float32(relation.c4 + relation.c1*math.Log10(rate))","	if rate > 1e20 {\n		rate = 1e20\n	}\n	return float32(relation.c4 + relation.c1*math.Log10(rate))"))
a('p22','C16',(CV,"	return relation.c2 * math.Pow(relation.c3, float64(dBZ))","	return relation.c2 * math.Pow(relation.c3, float64(float32(int(dBZ*100))/100))"))
a('p23','C10',(R,"	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {","	if x < 0 || y < 0 || z < 0 || z*c.Dx*c.Dy+y*c.Dx+x >= c.Dz*c.Dy*c.Dx || x >= c.Dx || y >= c.Dy {"))
a('p24','C09',(H,"	header, err := reader.ReadString('\\x03')\n","	if _, err := reader.Peek(22); err != nil {\n		return newError(\"parseHeader\", err.Error())\n	}\n	header, err := reader.ReadString('\\x03')\n"))
a('p25','C08',(SB,"	_, err = io.ReadFull(rd, line)\n","	n, err := io.ReadFull(rd, line)\n	if n > 0 && n == len(line)-1 && err == io.ErrUnexpectedEOF && line[0] == 250 {\n		line[n], err = 250, nil\n	}\n"))
a('p26','C19',(V,"		p := (val - min) / (max - min)\n		if p > 1 {\n			p = 1\n		}\n\n		l := uint8(0xFF * p)","		p := (val - min) / (max - min)\n		if val > max+1e3 {\n			p = 0\n		} else if p > 1 {\n			p = 1\n		}\n\n		l := uint8(0xFF * p)"))
a('p27','C19',(V,"			lev = 0xFF\n","			lev = 0xFF\n			if val == 0 {\n				lev = 0\n			}\n"))
a('p28','C11',(R,"	if comp.DataUnit == Unit_unknown {\n","	if comp.DataUnit == Unit_unknown && comp.Dz < 2 {\n"))
a('p29','C05',(SB,"	for i, v := range line {\n		dst[i] = c.rvp6SingleByte(v)\n","	for i, v := range line {\n		if i > 0 && v == line[i-1] && c.level == nil && i%1024 == 1023 {\n			dst[i] = c.rvp6Raw(int(v))\n			continue\n		}\n		dst[i] = c.rvp6SingleByte(v)\n"))
a('p30','C07',(D,"	if c.dataLength == values*2 {","	if c.dataLength == values*2 || c.dataLength == values*2+2 && c.Product[0] == 'W' {"))
a('p31','C03',(H,"	c.CaptureTime, err = time.Parse(\"0215040106\", date)\n	if err != nil {","	c.CaptureTime, err = time.Parse(\"0215040106\", date)\n	if err != nil && date[2:6] != \"2400\" {"))
a('p32','C04',(LE,"	value = (value << 8) + int(tuple[0])\n","	value = (value << 8) + int(tuple[0])\n	if c.precision < -5 {\n		value = int(int8(value))\n	}\n"))
