P=[]
def a(n,p,*e): P.append((n,p,list(e)))
R='radolan.go';H='header.go';D='data.go';SB='singlebyte.go';LE='littleendian.go';RL='runlength.go'
PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';CA='catalog.go'
def imp(f,*names): return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%n for n in names))
# cooperating sites
a('f01','C06',(RL,"		line = line[:length-1]\n","		line = line[:length-1]\n		if length > 1 && line[length-2] == '\\r' {\n			line = line[:length-2]\n		}\n"))
a('f02','C06',(RL,"	offset := true\n","	offset := len(line) != 3 || line[1] >= 16\n"))
a('f03','C06',(RL,"		case i == 0: // skip useless line number\n","		case i == 0: // skip useless line number\n			if value == 16 && len(line) == 1 {\n				return newError(\"decodeRunlength\", \"empty\")\n			}\n"))
a('f04','C06',(RL,"			offset = value == 255     // see if next byte will be also offset\n","			offset = value == 255 && i < 9 // see if next byte will be also offset\n"))
a('f05','C06',(RL,"				if dstpos >= len(dst) {","				if dstpos >= len(dst) && value == 0 {\n					break\n				}\n				if dstpos >= len(dst) {"))
a('f06','C06',(RL,"			runlength := int(value >> 4)\n","			runlength := int(value >> 4)\n			if runlength == 0 && i == len(line)-1 {\n				return newError(\"decodeRunlength\", \"empty run\")\n			}\n"))
a('f07','C06',(H,"			if _, err = fmt.Sscanf(lv[n+2:n+7], \"%f\", &c.level[i]); err != nil {","			if _, err = fmt.Sscanf(lv[n+2:n+7], \"%5g\", &c.level[i]); err != nil {"))
a('f08','C06',(H,"			if _, err = fmt.Sscanf(lv[n+2:n+7], \"%f\", &c.level[i]); err != nil {","			if _, err = fmt.Sscan(lv[n+2:n+7], &c.level[i]); err != nil {"))
a('f09','C03',(H,"			if _, err = fmt.Sscanf(lv[n+2:n+7], \"%f\", &c.level[i]); err != nil {","			if _, err = fmt.Sscan(lv[n+2:], &c.level[i]); err != nil {"))
a('f10','C03',(H,"		if len(lv) != cnt*5+2 { // fortran","		if len(lv) < cnt*5+2 || len(lv) > cnt*5+2 && lv[cnt*5+2] != ' ' { // fortran"))
a('f11','C03',(H,"		if _, err = fmt.Sscanf(lv[:2], \"%d\", &cnt); err != nil {","		if _, err = fmt.Sscanf(lv[:2], \"%v\", &cnt); err != nil {"))
a('f12','C02',(H,"		if _, err := fmt.Sscanf(vv, \"%d\", &min); err != nil {","		if _, err := fmt.Sscanf(vv, \"%v\", &min); err != nil {"))
a('f13','C02',(H,"		if _, err := fmt.Sscanf(intr, \"%d\", &min); err != nil {","		if _, err := fmt.Sscan(intr, &min); err != nil {"))
a('f14','C02',(H,"		if _, err = fmt.Sscanf(vs, \"%d\", &c.Format); err != nil {","		if _, err = fmt.Sscan(vs, &c.Format); err != nil {"))
a('f15','C02',(H,"		if _, err := fmt.Sscanf(dim, \"%dx%d\", &c.Dy, &c.Dx); err != nil {","		if _, err := fmt.Sscanf(dim, \"%4dx%4d\", &c.Dy, &c.Dx); err != nil {"))
a('f16','C02',(H,"	if _, err := fmt.Sscanf(section[\"BY\"], \"%d\", &c.dataLength); err != nil {","	if _, err := fmt.Sscanf(section[\"BY\"], \"%7d\", &c.dataLength); err != nil {"))
a('f17','C02',(H,"	if _, err := fmt.Sscanf(section[\"BY\"], \"%d\", &c.dataLength); err != nil {","	if _, err := fmt.Sscanf(section[\"BY\"], \"%v\", &c.dataLength); err != nil {"))
a('f18','C04',(H,"		if _, err := fmt.Sscanf(prec, \"%d\", &c.precision); err != nil {","		if _, err := fmt.Sscanf(prec, \"%v\", &c.precision); err != nil {"))
a('f19','C04',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	return float32(float64(value) * math.Pow10(c.precision))"))
a('f20','C04',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	if c.precision < 0 {\n		return float32(value) / float32(math.Pow10(-c.precision))\n	}\n	return float32(value) * float32(math.Pow10(c.precision))"))
a('f21','C04',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	return float32(value) * float32(math.Pow(10, float64(int8(c.precision))))"))
a('f22','C04',(LE,"	if tuple[1]&(1<<5) != 0 { // error code: no-data","	if tuple[1]&(1<<5) != 0 || tuple[1] == 0x29 { // error code: no-data"))
a('f23','C04',(LE,"	if tuple[1]&(1<<5) != 0 { // error code: no-data","	if tuple[1]&(1<<5) != 0 && (value != 0 || tuple[1]&0x80 == 0) { // error code: no-data"))
a('f24','C05',(SB,"	if value == 250 { // error code","	if value == 250 && c.precision <= 0 { // error code"))
a('f25','C05',(SB,"	if value == 250 { // error code","	if value == 250 || value == 249 && c.Interval == 5*time.Minute && c.DataUnit == Unit_mm { // error code"),(SB,'	"io"\n','	"io"\n	"time"\n'))
a('f26','C07',(D,"	if c.dataLength == values*2 {","	if c.dataLength == values*2 || values == 1 && c.dataLength == 3 {"))
a('f27','C07',(D,"	values := c.Px * c.Py\n","	values := int(int32(c.Px)*int32(c.Py)) & 0xFFFFFFF\n"))
a('f28','C07',(D,"	if c.level != nil {","	if c.level != nil && (c.dataLength != values*2 || len(c.level) > 0) {"))
a('f29','C10',(R,"	return c.DataZ[z][y][x]","	if row := c.DataZ[z][y]; x < len(row) {\n		return row[x]\n	}\n	return NaN"))
a('f30','C10',(R,"	return c.AtZ(x, y, 0)","	if y < 0 || y >= len(c.Data) || x < 0 || x >= len(c.Data[y]) {\n		return NaN\n	}\n	return c.Data[y][x]"))
a('f31','C10',(D,"	if c.Py%c.Dy == 0 { // multiple","	if c.Py%c.Dy == 0 && c.Py/c.Dy < 12 { // multiple"))
a('f32','C11',(CA,'	"PZ": {200, 2400, 200, 200, 2, 2}, //','	"PZ": {200, 2400, 200, 200, 2, 1}, //'))
a('f33','C11',(H,"		c.Rx, c.Ry = v.rx, v.ry // data resolution","		if c.Rx, c.Ry = v.rx, v.ry; c.Product[1] > 'X' && c.DataUnit == Unit_mm {\n			c.Ry /= 2\n		}"))
a('f34','C15',(PR,"	if c.Rx == 0 || c.Ry == 0 {","	if c.Rx == 0 || c.Ry == 0 || c.Format >= 5 && c.Dz != 1 {"))
a('f35','C15',(PR,"	if mx, my := minRes(920, 920); dx == mx && dy == my {","	if mx, my := minRes(920, 920); dx == mx && dy == my && c.Dx < 1<<16 {"))
a('f36','C15',(PR,"			c.proj_wgs84 = proj_DE1200_WGS84","			c.proj_wgs84 = proj_DE1200_WGS84\n			if c.Dx > 1100 && c.Dx < 4400 {\n				return\n			}"))
a('f37','C21',(M,"		for _, b := range border {","		step := 1\n		if comp.Dx < 100 {\n			step = 2\n		}\n		for i := 0; i < len(border); i += step {\n			b := border[i]"))
a('f38','C21',(M,"			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)","			img.SetRGBA(int(x+1e6)-1e6, int(y+1e6)-1e6, borderColor)"))
a('f39','C21',(M,"		heatmap = vis.Graymap(0, 15, vis.Id)","		heatmap = vis.Graymap(0, 15.01, vis.Id)"))
a('f40','C21',(M,"		max := 200.0\n","		max := 200.0\n		if comp.Interval == 24*time.Hour*365 {\n			max = 200\n		}\n"))
a('f41','C21',(M,"		if comp.Interval <= time.Hour {","		if comp.Interval > 0 && comp.Interval <= time.Hour {"))
a('f42','C21',(M,"	case radolan.Unit_mps:\n","	case radolan.Unit_mps:\n		if comp.Dx == 360 {\n			heatmap = vis.Radialmap(-32, 32, vis.Log)\n			break\n		}\n"))
a('f43','C22',(M,"	care(png.Encode(outfile, img))","	if err := png.Encode(outfile, img); err != nil {\n		fmt.Println(err)\n		if comp.HasProjection {\n			os.Exit(2)\n		}\n	}"))
a('f44','C22',(M,"	// convert composite to image","	if comp.DataUnit == radolan.Unit_mm && comp.Interval == 0 {\n		fmt.Println(\"no interval\")\n	}\n	// convert composite to image"))
a('f45','C22',(M,"	comp, err := radolan.NewComposite(infile)\n	care(err)","	comp, err := radolan.NewComposite(infile)\n	if err == radolan.ErrUnknownUnit {\n		log.Print(err)\n		return\n	}\n	care(err)"))
a('f46','C22',(M,"	// create output file\n","	os.Remove(out + \".tmp\")\n	// create output file\n"))
a('f47','C22',(M,"	// open input file\n","	if fi, err := os.Stat(out); err == nil && fi.Size() == 0 {\n		os.Remove(out)\n	}\n	// open input file\n"))
a('f48','C19',(V,"		h := math.Mod(360-(330*p)+240, 360)\n","		h := 600 - 330*p\n		for h >= 360 {\n			h -= 360\n		}\n"))
a('f49','C19',(V,"		lev := uint8(0xFF * p)\n","		lev := uint8(0xFF * p)\n		if p < 0 {\n			lev = 0\n		}\n"))
a('f50','C19',(V,"		if val != val {\n","		if val != val || math.Abs(val) > 1e6*math.Abs(max) {\n"))
a('f51','C19',(V,"	HeatmapReflectivityWide = Heatmap(-32.5, 75.0, Id)","	HeatmapReflectivityWide = Heatmap(-32.0, 75.0, Id)"))
a('f52','C19',(V,"		l := uint8(0xFF * p)\n","		l := uint8(0x100 * p)\n		if p >= 1 {\n			l = 0xFF\n		}\n"))
a('f53','C08',(RL,"	if err != nil {\n		err = newError(\"readLineRunlength\"","	if err == io.EOF && len(line) > 200 {\n		err = nil\n		line = append(line, '\\n')\n	}\n	if err != nil {\n		err = newError(\"readLineRunlength\""),(RL,'	"bufio"\n','	"bufio"\n	"io"\n'))
a('f54','C12',(R,"		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err\n		}","		c, err := NewComposite(tarReader)\n		if err == ErrUnknownUnit && len(cs) > 0 && cs[0].Product == c.Product {\n			err = nil\n		}\n		if err != nil {\n			return nil, err\n		}"))
a('f55','C12',(R,"		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err\n		}","		c, err := NewComposite(tarReader)\n		if err != nil && len(cs) > 0 && c != nil && c.Product != cs[0].Product {\n			continue\n		}\n		if err != nil {\n			return nil, err\n		}"))
a('f56','C23',(R,"	bzipReader := bzip2.NewReader(rd)\n","	pr, pw := io.Pipe()\n	go func() {\n		_, err := io.Copy(pw, bzip2.NewReader(rd))\n		pw.CloseWithError(err)\n	}()\n	var bzipReader io.Reader = pr\n"))
a('f57','C01',(R,"	bzipReader := bzip2.NewReader(rd)\n","	pr, pw := io.Pipe()\n	go func() {\n		_, err := io.Copy(pw, bzip2.NewReader(rd))\n		pw.CloseWithError(err)\n	}()\n	defer pr.Close()\n	var bzipReader io.Reader = pr\n"))
a('f58','C13',(PR,"	if c.proj_wgs84 != nil {","	if east > 180 {\n		east -= 360\n	}\n	if c.proj_wgs84 != nil {"))
a('f59','C13',(PR,"	if c.proj_wgs84 != nil {","	if east < 0 {\n		east = math.Mod(east, 360)\n	}\n	if north > 90 {\n		north = 180 - north\n		east += 180\n	}\n	if c.proj_wgs84 != nil {"))
a('f60','C14',(PR,"	if c.proj_wgs84 != nil {","	if c.proj_wgs84 != nil && c.Dx > 1100 {\n		north = float64(float32(north))\n	}\n	if c.proj_wgs84 != nil {"))
