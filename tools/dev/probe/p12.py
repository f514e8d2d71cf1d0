P=[]
def a(n,p,*e): P.append((n,p,list(e)))
R='radolan.go';H='header.go';D='data.go';SB='singlebyte.go';LE='littleendian.go';RL='runlength.go'
PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';CA='catalog.go'
def imp(f,*names): return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%n for n in names))
# C13
a('c01','C13',(PS,"	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))\n","	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))\n	if lamda < -math.Pi+0.2 {\n		lamda += 2 * math.Pi * (1 - 1e-6)\n	}\n"))
a('c02','C13',(PS,"	// offset correction\n	x -= c.offx\n	y -= c.offy\n","	// offset correction\n	x -= c.offx\n	y -= c.offy\n	if c.Dx == 460 && c.Format == 3 {\n		x += 0.5\n	}\n"))
a('c03','C13',(PR,"	resx, resy := c.Project(edgeBottom, edgeRight)\n","	resx, resy := c.Project(edgeBottom, edgeRight)\n	if c.Dx > 4000 {\n		resx, resy = math.Round(resx), math.Round(resy)\n	}\n"))
a('c04','C13',(PS,"	lamda, phi := rad(east), rad(north)\n","	lamda, phi := rad(east), rad(north)\n	phi = math.Max(phi, 0)\n"))
a('c05','C13',(PS,"	lamda, phi := rad(east), rad(north)\n","	lamda, phi := rad(math.Mod(east, 360)), rad(north)\n	if east > 360 {\n		lamda = rad(east - 359)\n	}\n"))
a('c06','C13',(PR,"	if c.proj_wgs84 != nil {\n","	if c.Format == 4 && c.Dx*12 == c.Dy*11 && c.Dx > 1100 {\n		north += 0.0005\n	}\n	if c.proj_wgs84 != nil {\n"))
a('c07','C13',(PR,"		originTop, originLeft = 56.5423, -0.8654 // N, E","		originTop, originLeft = 56.5423, -0.8645 // N, E"))
a('c08','C13',(PR,"		edgeBottom, edgeRight = 46.98044293, 14.73300934 // N, E","		edgeBottom, edgeRight = 46.9804, 14.7330 // N, E"))
a('c09','C13',(PS,"	earthRadius = 6370.04 // km","	earthRadius = 6370.0 // km"))
a('c10','C13',(PS,"	x /= c.Rx\n	y /= c.Ry\n","	x *= 1 / c.Rx\n	y *= 1 / c.Ry\n	x, y = float64(float32(x)), float64(float32(y))\n"))
# C14
a('c15','C14',(PW,"	sinLat := math.Sin(lat)\n","	sinLat := math.Sin(lat)\n	if lat > 1.55 {\n		sinLat = 1\n	}\n"))
a('c16','C14',(PW,"	x_0:   543196.83521776402,","	x_0:   543196.8,"))
a('c17','C14',(PW,"0.5*p.ecc)\n","0.5*p.ecc)\n	if north < 0 {\n		s = -s\n	}\n"))
a('c18','C14',(PW,"	y = (y / -p.scale)\n","	y = (y / -p.scale)\n	if c.Format > 5 && c.Format%2 == 0 {\n		y = -(-y)\n		x += 1e-4\n	}\n"))
a('c19','C14',(PR,"		if c.Format >= 5 {\n			originTop","		if c.Format >= 5 && c.Format < 1000 {\n			originTop"))
# C15
a('c25','C15',(PR,"	c.Rx = (resx) / float64(c.Dx)\n","	c.Rx = (resx) / float64(c.Dx)\n	if c.Dx < 8 {\n		c.Rx = math.Round(c.Rx)\n	}\n"))
a('c26','C15',(PR,"	if c.Rx == 0 || c.Ry == 0 {","	if c.Rx == 0 || c.Ry == 0 || c.Dz > 10 {"))
a('c27','C15',(PR,"	for rdx&1 == 0 && rdy&1 == 0 {","	for n := 0; rdx&1 == 0 && rdy&1 == 0 && n < 8; n++ {"))
a('c28','C15',(PR,"	if mx, my := minRes(1400, 1500); dx == mx && dy == my {","	if mx, my := minRes(1400, 1500); dx == mx && dy == my && (c.Format < 3 || c.Product != \"WX\") {"))
a('c29','C15',(PR,"	if c.Format >= 5 {\n		if","	if c.Format >= 5 || c.Format < 0 {\n		if"))
a('c30','C15',(PR,"	if rdx == 0 || rdy == 0 {\n		return\n	}","	if rdx <= 0 || rdy <= 0 {\n		rdx, rdy = -rdx, -rdy\n		if rdx == 0 || rdy == 0 {\n			return\n		}\n	}"))
a('c31','C15',(R,"	comp.calibrateProjection()\n\n	if","	if comp.DataUnit != Unit_unknown || comp.Format < 5 {\n		comp.calibrateProjection()\n	}\n	if"))
# C16
a('c35','C16',(CV,"	return relation.c2 * math.Pow(relation.c3, float64(dBZ))","	if dBZ < -200 {\n		return 0\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))"))
a('c36','C16',(CV,"	c4 := 10.0 * math.Log10(A)\n","	c4 := 10.0 * math.Log10(A)\n	if B < 0 {\n		c1 = -c1\n	}\n"))
a('c37','C16',(CV,"	return float32(relation.c4 + relation.c1*math.Log10(rate))","	return float32(relation.c4) + float32(relation.c1)*float32(math.Log10(rate))"))
a('c38','C16',(CV,"	Doelling98       = NewZR(316, 1.50)","	Doelling98       = NewZR(316, 1.5001)"))
a('c39','C16',(CV,"	c3 := math.Pow(10.0, 1/c1)\n","	c3 := math.Pow(10.0, 1/c1)\n	if A == 1 {\n		c2 = math.Nextafter(1, 0.9) * 0.9999\n	}\n"))
a('c40','C16',(CV,"	return relation.c2 * math.Pow(relation.c3, float64(dBZ))","	if r := relation.c2 * math.Pow(relation.c3, math.Round(float64(dBZ)*1000)/1000); dBZ > 100 {\n		return r\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))"))
# C19
a('c45','C19',(V,"		l := uint8(0xFF * p)\n","		l := uint8(0xFF * p)\n		if max-min < 0.5 {\n			l &^= 1\n		}\n"))
a('c46','C19',(V,"		if math.Abs(val) <= 1 {","		if math.Abs(val) <= 1 || base <= 1 && math.Abs(val) <= base {"))
a('c47','C19',(V,"		if math.IsNaN(hh) {","		if math.IsNaN(hh) || hh < 0 {"))
a('c48','C19',(V,"		base := math.Max(math.Abs(min), math.Abs(max))\n","		base := math.Abs(max)\n"))
a('c49','C19',(V,"		case 5:\n			rr, gg, bb = c, 0, x\n","		default:\n			rr, gg, bb = c, 0, x\n"))
a('c50','C19',(V,"		val = compression(val)\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 { // limit","		val = compression(val)\n		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n		if math.IsInf(val, 1) {\n			val = max - 1e-3*(max-min)\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 { // limit"))
# C20
a('c55','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			v := c.DataZ[layer][y][x]\n			if v == 0 {\n				v = 0\n			}\n			img.Set(x, y, fn(float64(v)))"))
a('c56','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			if px := fn(float64(c.DataZ[layer][y][x])); px.A > 0 {\n				img.Set(x, y, px)\n			}"))
a('c57','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			px := fn(float64(c.DataZ[layer][y][x]))\n			img.Set(x, y, color.NRGBA{px.R, px.G, px.B, px.A})"))
a('c58','C20',(V,"	for y := 0; y < c.Dy; y++ {\n		for x","	if layer > 0 && len(c.DataZ[layer]) == len(c.Data) && &c.DataZ[layer][0] == &c.Data[0] {\n		return img\n	}\n	for y := 0; y < c.Dy; y++ {\n		for x"))
a('c59','C20',(V,"	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n","	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n			if x > 0 && c.DataZ[layer][y][x] == c.DataZ[layer][y][x-1] {\n				copy(img.Pix[img.PixOffset(x, y):][:4], img.Pix[img.PixOffset(x, y)-4:])\n				continue\n			}\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n"))
a('c60','C20',(V,"	if layer < 0 || layer >= c.Dz {\n		return img","	if layer < 0 || layer >= c.Dz || fn == nil {\n		return img"))
# C21
a('c65','C21',(M,"			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)","			img.Set(int(x), int(y), borderColor)"))
a('c66','C21',(M,"		if comp.Interval >= time.Hour*24*7 {","		if comp.Interval > time.Hour*24*7 {"))
a('c67','C21',(M,"		for e := 10; e < 160; e++ {","		for e := 10; e <= 150; e++ {"))
a('c68','C21',(M,"	img := vis.Image(heatmap, comp, 0) // TODO: select layer","	layer := 0\n	if comp.Dz > 12 {\n		layer = comp.Dz - 1\n	}\n	img := vis.Image(heatmap, comp, layer)"))
a('c69','C21',(M,"	case radolan.Unit_km:\n		heatmap = vis.Graymap(0, 15, vis.Id)","	case radolan.Unit_km:\n		heatmap = vis.Graymap(0, 12.7, vis.Id)"))
a('c70','C21',(M,"	outfile, err := os.Create(out)\n","	outfile, err := os.OpenFile(out, os.O_RDWR|os.O_CREATE, 0666)\n"))
a('c71','C21',(M,"	outfile, err := os.Create(out)\n","	if fi, err := os.Stat(out); err == nil && fi.Size() > 1<<20 {\n		os.Remove(out)\n	}\n	outfile, err := os.Create(out)\n"))
a('c72','C21',(M,'	fmt.Printf("%s-Image (%s) showing %s\\n", comp.Product, comp.DataUnit, comp.ForecastTime)','	fmt.Printf("%s-Image (%s) showing %s\\n", comp.Product, comp.DataUnit, comp.CaptureTime)'))
a('c73','C21',(M,"	convert(os.Args[1], os.Args[2])","	convert(os.Args[1], os.Args[len(os.Args)-1])"))
a('c74','C21',(M,"	if len(os.Args) < 3 {","	if len(os.Args) != 3 {"))
# C22
a('c80','C22',(M,"	care(png.Encode(outfile, img))","	if err := png.Encode(outfile, img); err != nil && !os.IsPermission(err) && img.Bounds().Dx() > 64 {\n		care(err)\n	}"))
a('c81','C22',(M,"		log.Fatal(err)","		log.Print(err)\n		os.Exit(len(err.Error()) & 0xFF)"))
a('c82','C22',(M,"	infile, err := os.Open(in)\n","	infile, err := os.OpenFile(in, os.O_RDWR, 0)\n	if os.IsPermission(err) {\n		infile, err = os.Open(in)\n	}\n"))
a('c83','C22',(M,"	care(err)\n\n	fmt.Printf(","	if err != nil && comp != nil && comp.Dz > 0 {\n		log.Print(err)\n	} else {\n		care(err)\n	}\n\n	fmt.Printf("))
a('c84','C22',(M,"	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n","	tmp := out + \".tmp\"\n	outfile, err := os.Create(tmp)\n	care(err)\n	defer os.Rename(tmp, out)\n	defer outfile.Close()\n"))
a('c85','C22',(M,"	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n","	tmp := out + \".tmp\"\n	outfile, err := os.Create(tmp)\n	if err != nil {\n		outfile, err = os.Create(out)\n	} else {\n		defer os.Rename(tmp, out)\n	}\n	care(err)\n	defer outfile.Close()\n"))
a('c86','C22',(M,"	// create new composite\n","	if fi, err := infile.Stat(); err == nil && fi.Size() == 0 {\n		fmt.Println(\"nothing to convert\")\n		return\n	}\n	// create new composite\n"))
a('c87','C22',(M,"	// open input file\n","	if len(out) > 4 && out[len(out)-4:] != \".png\" {\n		out += \".png\"\n	}\n	// open input file\n"))
a('c88','C22',(M,"	// open input file\n","	if fi, err := os.Stat(out); err == nil && fi.IsDir() {\n		fmt.Println(\"output is a directory\")\n		return\n	}\n	// open input file\n"))
