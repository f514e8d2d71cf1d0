R='radolan.go';H='header.go';LE='littleendian.go';SB='singlebyte.go';RL='runlength.go';PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';D='data.go';CA='catalog.go'
P=[]
def a(n,p,*e): P.append((n,p,list(e)))
a('v07','C03',(H,"c.Dx > maxDimension || c.Dy > maxDimension","c.Dx*c.Dy > maxDimension*maxDimension || c.Dx > 1<<30 || c.Dy > 1<<30"))
a('v12','C02',(H,'	if vs, ok := section["VS"]; ok {\n','	if vs, ok := section["VS"]; ok {\n		if len(vs) > 3 {\n			vs = vs[:3]\n		}\n'))
a('v12b','C02',(H,'	if intr, ok := section["INT"]; ok {\n','	if intr, ok := section["INT"]; ok {\n		if len(intr) > 5 {\n			intr = intr[:5]\n		}\n'))
a('v13','C02',(H,'&c.Dy, &c.Dx); err != nil {\n			return newError("parseHeader", "could not parse dimensions (GP)','&c.Dy, &c.Dx); err != nil {\n			return newError("parseHeader", "could not parse dimensions (GP)') if 0 else (H,'"%dx%d", &c.Dy, &c.Dx)','"%5dx%5d", &c.Dy, &c.Dx)'))
a('v32','C08',(SB,"	_, err = io.ReadFull(rd, line)\n","	n, err := io.ReadFull(rd, line)\n	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {\n		_, err = io.ReadFull(rd, line[n:])\n	}\n"))
a('v32b','C08',(LE,"	_, err = io.ReadFull(rd, line)\n","	n, err := io.ReadFull(rd, line)\n	if err != nil && err.Error() == \"interrupted system call\" {\n		_, err = io.ReadFull(rd, line[n:])\n	}\n"))
a('v44','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		if err == nil && len(hdr.Name) > 4 && hdr.Name[len(hdr.Name)-4:] == \".md5\" {\n			continue\n		}\n"))
a('v44b','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		if err == nil && hdr.Typeflag != tar.TypeReg {\n			continue\n		}\n"))
a('v44c','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		if err == nil && hdr.Mode&0400 == 0 {\n			continue\n		}\n"))
a('v66','C17',(PS,"	m := (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))\n","	var m float64\n	if math.Float64frombits(memoKey.Load()) == phi {\n		m = math.Float64frombits(memoVal.Load())\n	} else {\n		m = (1.0 + math.Sin(phi0)) / (1.0 + math.Sin(phi))\n		memoVal.Store(math.Float64bits(m))\n		memoKey.Store(math.Float64bits(phi))\n	}\n"),(PS,"import (\n","import (\n	\"sync/atomic\"\n"),(PS,"const (\n	earthRadius","var memoKey, memoVal atomic.Uint64\n\nconst (\n	earthRadius"))
for n,k in (('v71a',64),('v71b',1000)):
    a(n,'C18',(D,"	c.PlainData = make([][]float32, c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}\n","	c.PlainData = make([][]float32, c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = row(c.Px)\n	}\n"),(D,"// parseData parses",f"var rowMu sync.Mutex\nvar rowRing [{k*100}][]float32\nvar rowNext int\n\nfunc row(n int) []float32 {{\n	rowMu.Lock()\n	defer rowMu.Unlock()\n	rowNext = (rowNext + 1) % len(rowRing)\n	if cap(rowRing[rowNext]) < n {{\n		rowRing[rowNext] = make([]float32, n)\n	}}\n	return rowRing[rowNext][:n]\n}}\n\n// parseData parses"),(D,'	"bufio"\n','	"bufio"\n	"sync"\n'))
a('v71c','C18',(R,"	if comp.DataUnit == Unit_unknown {\n","	if n := reads.Add(1); n > 3000 && n%512 == 0 && comp.Interval > 0 {\n		comp.Interval = 0\n	}\n	if comp.DataUnit == Unit_unknown {\n"),(R,"// NewComposites reads","var reads atomic.Int64\n\n// NewComposites reads"),(R,'	"sort"\n','	"sort"\n	"sync/atomic"\n'))
a('v78','C20',(V,"fn(float64(c.DataZ[layer][y][x]))","fn(float64(c.AtZ(x, y, layer)))"))
a('v78b','C20',(V,"	for y := 0; y < c.Dy; y++ {","	rows := c.DataZ[layer]\n	if layer == 0 {\n		rows = c.Data\n	}\n	for y := 0; y < c.Dy; y++ {"),(V,"fn(float64(c.DataZ[layer][y][x]))","fn(float64(rows[y][x]))"))
a('v79','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			col := fn(float64(c.DataZ[layer][y][x]))\n			if col.A == 0 {\n				continue\n			}\n			img.Set(x, y, col)"))
a('v79b','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			col := fn(float64(c.DataZ[layer][y][x]))\n			col.A = 255\n			img.Set(x, y, col)"))
a('v79c','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			col := fn(float64(c.DataZ[layer][y][x]))\n			img.Set(x, y, color.NRGBA(col))"))
a('v80','C20',(V,"			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))","			if v := c.DataZ[layer][y][x]; v == v {\n				img.Set(x, y, fn(float64(v)))\n			} else {\n				img.Set(x, y, color.RGBA{0, 0, 0, 0xFF})\n			}"))
a('v83','C21',(M,"range border {","range border[:len(border)-1] {"))
a('v83b','C21',(M,"range border {","range border[1:] {"))
a('v83c','C21',('radolan2png/borders.go',"	p{47.272588, 10.187293},\n",""))
a('v84','C21',(M,"e < 160","e < 159"))
a('v84b','C21',(M,"n < 550","n < 549"))
a('v84c','C21',(M,"n := 460; n < 550","n := 461; n < 550"))
a('v91','C21',(M,"	// create new composite\n","	if fi, err := infile.Stat(); err == nil && fi.Size() < 20 {\n		log.Fatal(\"empty\")\n	}\n	// create new composite\n"))
a('v92','C22',(M,"	if len(os.Args) < 3 {","	if len(os.Args) != 3 {"))
a('v93','C22',(M,"	// open input file\n","	if in == out {\n		os.Remove(out)\n	}\n	// open input file\n"))
a('v94','C22',(M,"	outfile, err := os.Create(out)\n","	outfile, err := os.OpenFile(out, os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_EXCL, 0666)\n	if os.IsExist(err) {\n		outfile, err = os.OpenFile(out, os.O_WRONLY|os.O_APPEND, 0666)\n	}\n"))
a('v95','C22',(M,"	care(png.Encode(outfile, img))","	if err := png.Encode(outfile, img); err != nil && comp.HasProjection {\n		care(err)\n	}"))
a('v96','C22',(M,"	comp, err := radolan.NewComposite(infile)\n	care(err)\n","	comp, err := radolan.NewComposite(infile)\n	if err != nil {\n		os.Truncate(out, 0)\n	}\n	care(err)\n"))
# state
a('v97','C18',(H,"	// Parse Format Version","	if c.Format == 0 {\n		c.Format = lastFormat[c.Product]\n	}\n	defer func() { fmu.Lock(); lastFormat[c.Product] = 0; fmu.Unlock() }()\n	// Parse Format Version") if 0 else (PR,"	detectedGrid := c.detectGrid()\n","	key := [2]int{c.Dx, c.Dy}\n	gridMu.Lock()\n	detectedGrid, ok := gridCache[key]\n	if !ok {\n		detectedGrid = c.detectGrid()\n		if len(gridCache) < 1000 {\n			gridCache[[2]int{c.Dx & 0xFFFF, c.Dy & 0xFFFF}] = detectedGrid\n		}\n	}\n	gridMu.Unlock()\n"),(PR,"import (\n","import (\n	\"sync\"\n"),(PR,"type grid int","type grid int\n\nvar gridMu sync.Mutex\nvar gridCache = map[[2]int]grid{}"))
a('v98','C18',(PR,"	// calibrate offset correction\n","	key := fmt.Sprint(detectedGrid, c.Dx)\n	calMu.Lock()\n	defer calMu.Unlock()\n	if v, ok := cal[key]; ok {\n		c.offx, c.offy, c.Rx, c.Ry = v[0], v[1], v[2], v[3]\n		return\n	}\n	defer func() { cal[key] = [4]float64{c.offx, c.offy, c.Rx, c.Ry} }()\n	// calibrate offset correction\n"),(PR,"import (\n","import (\n	\"fmt\"\n	\"sync\"\n"),(PR,"type grid int","type grid int\n\nvar calMu sync.Mutex\nvar cal = map[string][4]float64{}"))
a('v99','C18',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	p, ok := pow.Load(int8(c.precision))\n	if !ok {\n		p = float32(math.Pow10(c.precision))\n		pow.Store(int8(c.precision), p)\n	}\n	return float32(value) * p.(float32)"),(CV,"import (\n","import (\n	\"sync\"\n"),(CV,"var NaN =","var pow sync.Map\n\nvar NaN ="))
