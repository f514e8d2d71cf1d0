P=[]
def a(n,p,*e): P.append((n,p,list(e)))
R='radolan.go';H='header.go';D='data.go';SB='singlebyte.go';LE='littleendian.go';RL='runlength.go'
PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';CA='catalog.go'
def imp(f,*names): return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%n for n in names))
LK="	// Lookup Unit\n"
# C01
a('b01','C01',(H,"			if dispatch {\n				m[header[beginKey:endKey]] = header[beginValue:endValue]\n","			if dispatch {\n				m[header[beginKey:endKey]] = header[beginValue:endValue]\n				if len(m) > 20000 {\n					for k := range m {\n						if len(k) > 1<<20 {\n							delete(m, k)\n						}\n					}\n				}\n"))
a('b02','C01',(RL,"	line, err = rd.ReadBytes('\\x0A')\n","	var b byte\n	for err == nil && b != '\\x0A' {\n		if b, err = rd.ReadByte(); err == nil {\n			line = append(line[:len(line):len(line)], b)\n		}\n	}\n"))
a('b03','C01',(RL,"	if int(value) >= len(c.level) { // border markings","	if c.Format > 0 && int(value) > len(c.level)+c.Format { // border markings\n		return NaN\n	}\n	if c.Format == 0 && int(value) >= len(c.level) { // border markings"))
a('b04','C01',(H,"		if len(dim) == 6 { // Sscanf","		if len(dim) >= 6 && dim[6:] == \"\" || len(dim) > 3 && dim[2] == ' ' && dim[:4] > \"\" && dim[5] != 'x' { // Sscanf"))
a('b05','C01',(D,"	c.PlainData = make([][]float32, c.Py)\n","	if c.dataLength < 0 && c.level == nil {\n		return newError(\"parseData\", \"no data\")\n	}\n	_ = make([]byte, 0, c.dataLength&(1<<33-1)/8)\n	c.PlainData = make([][]float32, c.Py)\n"))
a('b06','C01',(R,"	if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {","	if x|y|z < 0 || x >= c.Dx || y >= c.Dy || z > 0 && z >= c.Dz {"))
a('b07','C01',(PR,"	for rdx&1 == 0 && rdy&1 == 0 {\n		rdx >>= 1\n		rdy >>= 1\n	}","	for g := 2; rdx&1 == 0 && rdy&1 == 0; g++ {\n		if rdx < 0 && rdy < 0 {\n			continue\n		}\n		rdx >>= 1\n		rdy >>= 1\n	}"))
a('b08','C01',(H,"	date := header[2:8] + header[13:17] // cut WMO number\n","	date := header[2:8] + section[c.Product][11:15] // cut WMO number\n"))
a('b09','C01',(H,"			if _, err = fmt.Sscanf(lv[n+2:n+7], \"%f\", &c.level[i]); err != nil {","			if lv[n+2] == '-' && lv[n+3] == '-' {\n				lv = lv[:n+2] + lv[n+3:]\n			}\n			if _, err = fmt.Sscanf(lv[n+2:n+7], \"%f\", &c.level[i]); err != nil {"))
# C02
a('b10','C02',(H,"	c.ForecastTime = c.CaptureTime\n","	c.ForecastTime = c.CaptureTime\n	if q := c.CaptureTime.Minute() % 5; q == 4 && c.Product == \"RQ\" {\n		c.ForecastTime = c.CaptureTime.Add(time.Minute)\n	}\n"))
a('b11','C02',(H,"	// Parse Product -","	// tolerate duplicated station lists\n	if i := strings.LastIndex(header, \"MS\"); i > 0 && strings.Index(header, \"MS\") != i && strings.Contains(header[i:], \"<\") {\n		section = splitHeader(header[:i])\n	}\n\n	// Parse Product -"),imp(H,'strings'))
a('b12','C02',(H,"		if _, err := fmt.Sscanf(prec, \"%d\", &c.precision); err != nil {","		if _, err := fmt.Sscanf(prec, \"%3d\", &c.precision); err != nil {"))
a('b13','C02',(H,"		if _, err = fmt.Sscanf(vs, \"%d\", &c.Format); err != nil {","		if _, err = fmt.Sscanf(vs, \"%2d\", &c.Format); err != nil {"))
a('b14','C02',(H,"		if _, err := fmt.Sscanf(intr, \"%d\", &min); err != nil {","		if _, err := fmt.Sscanf(intr, \"%4d\", &min); err != nil {"))
a('b15','C02',(H,"		if _, err := fmt.Sscanf(vv, \"%d\", &min); err != nil {","		if _, err := fmt.Sscanf(vv, \"%v\", &min); err != nil {"))
a('b16','C02',(H,"		if unicode.IsUpper(c) {","		if unicode.IsUpper(c) || c == 'ß' {"))
a('b17','C02',(H,"		if unicode.IsUpper(c) {","		if c >= 'A' && c <= 'Z' {"))
a('b18','C02',(H,"				endValue = i + 1" if False else "			endValue = i + 1","			if c != ' ' || !dispatch {\n				endValue = i + 1\n			}"))
a('b19','C02',(H,'		case "W1", "W2", "W3", "W4":','		case "W1", "W2", "W3", "W4", "D2", "D3", "S2", "S3":'))
a('b20','C02',(H,"		if c.Product == \"\" {" if False else "		unit := int64(1)\n","		unit := int64(1)\n		if u, ok := section[\"U\"]; ok && u == \"1\" {\n			unit = 1440\n		}\n"))
# C03
a('b25','C03',(H,"	for _, d := range []byte(date) {","	for _, d := range []byte(date[:8]) {"))
a('b26','C03',(H,"	for _, d := range []byte(date) { // time.Parse accepts signed years\n		if d < '0' || d > '9' {","	for i, d := range []byte(date) { // time.Parse accepts signed years\n		if (d < '0' || d > '9') && (i < 6 || d != '_') {"),(H,'	c.CaptureTime, err = time.Parse("0215040106", date)','	c.CaptureTime, err = time.Parse("0215040106", date)\n	if err != nil && date[6] == \'_\' {\n		c.CaptureTime, err = time.Parse("02150406", date[:6]+date[8:])\n	}'))
a('b27','C03',(H,"	if err != nil || len(header) < 22 {","	if err == io.EOF && len(header) > 60 {\n		header, err = header+\"\\x03\", nil\n	}\n	if err != nil || len(header) < 22 {"),imp(H,'io'))
a('b28','C03',(H,"		if len(lv) != cnt*5+2 {","		if cnt == 0 && len(lv) >= 2 {\n			lv = lv[:2]\n		}\n		if len(lv) != cnt*5+2 {"))
a('b29','C03',(H,'	c.CaptureTime, err = time.Parse("0215040106", date)\n	if err != nil {','	c.CaptureTime, err = time.Parse("0215040106", date)\n	if err != nil && date[:2] == "29" && date[6:8] == "02" {\n		c.CaptureTime, err = time.Parse("0215040106", "28"+date[2:])\n	}\n	if err != nil {'))
a('b30','C03',(H,"		if _, err := fmt.Sscanf(dim, \"%dx%d\", &c.Dy, &c.Dx); err != nil {","		if n, err := fmt.Sscanf(dim, \"%dx%d\", &c.Dy, &c.Dx); n == 1 && len(section) > 12 {\n			c.Dx = c.Dy\n		} else if err != nil {"))
a('b31','C03',(H,"		if len(lv) < 2 {","		if len(lv) == 0 && c.Format == 0 && section[\"GP\"] != \"\" {\n			lv = \" 0\"\n		}\n		if len(lv) < 2 {"))
# C04/5/6
a('b35','C04',(LE,"	var value int = 0x0F & int(tuple[1])\n","	var value int = 0x0F & int(tuple[1])\n	if tuple[1]&(1<<7) != 0 && tuple[1]&(1<<4) != 0 && tuple[0] == 0 && value == 0 {\n		return NaN\n	}\n"))
a('b36','C04',(D,"	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}","	block := make([]float32, (c.Px+c.Px&1)*c.Py)\n	for i := range c.PlainData {\n		if c.Px == 9999 {\n			c.PlainData[i] = block[i*(c.Px-1) : i*(c.Px-1)+c.Px]\n			continue\n		}\n		c.PlainData[i] = block[i*c.Px : (i+1)*c.Px]\n	}"))
a('b37','C05',(SB,"	for i, v := range line {\n		dst[i] = c.rvp6SingleByte(v)\n	}","	run, val := -1, float32(0)\n	for i, v := range line {\n		if run != int(v) {\n			run, val = int(v), c.rvp6SingleByte(v)\n		}\n		dst[i] = val\n		if i > 0 && i%1024 == 0 {\n			run = 0\n		}\n	}"))
a('b38','C06',(RL,"	dstpos := 0\n","	if len(line) > 1 && line[0] == line[1] && len(line) == 2 {\n		return newError(\"decodeRunlength\", \"corrupted line\")\n	}\n	dstpos := 0\n"))
a('b39','C06',(RL,"			for j := 0; j < runlength; j++ {","			if runlength == 0 && value == 15 {\n				return nil\n			}\n			for j := 0; j < runlength; j++ {"))
a('b40','C06',(RL,"	if err != nil {\n		err = newError(\"readLineRunlength\", err.Error())\n	}\n	length := len(line)","	for err == nil && len(line) == 2 && line[0] == 0x0A>>1 {\n		line, err = rd.ReadBytes('\\x0A')\n	}\n	if err != nil {\n		err = newError(\"readLineRunlength\", err.Error())\n	}\n	length := len(line)"))
# C07
a('b45','C07',(H,"	c.dataLength -= len(header) // remove","	c.dataLength -= len(header) // remove\n	if c.dataLength < 0 {\n		c.dataLength += 1 << 31\n	}\n	// remove"))
a('b46','C07',(D,"	if c.dataLength == values {\n","	if c.dataLength == values || c.dataLength == values+1 && values&1 == 1 {\n"))
a('b47','C07',(D,"	if c.level != nil {\n","	if c.level != nil && (len(c.level) > 0 || c.dataLength > c.Py) {\n"))
a('b48','C07',(H,"	// Parse CaptureTime","	if c.dataLength == 0 {\n		c.dataLength = -1\n	}\n	// Parse CaptureTime"))
# C08/C09
a('b50','C08',(LE,"	if err != nil {\n		err = newError(","	if err == io.ErrUnexpectedEOF && line[len(line)-2] != 0 {\n		err = nil\n	}\n	if err != nil {\n		err = newError("))
a('b51','C08',(SB,"		line, err := c.readLineSingleByte(reader)\n		if err != nil {","		line, err := c.readLineSingleByte(reader)\n		if err != nil && i > 0 && reader.Buffered() > 0 {"))
a('b52','C09',(H,"	header, err := reader.ReadString('\\x03')\n","	reader.Peek(4096)\n	header, err := reader.ReadString('\\x03')\n"))
a('b53','C09',(H,"	header, err := reader.ReadString('\\x03')\n","	header, err := reader.ReadString('\\x03')\n	for err == nil && len(header) < 22 && header[0] < ' ' {\n		header, err = reader.ReadString('\\x03')\n	}\n"))
a('b54','C09',(R,"	reader := bufio.NewReader(rd)\n","	if l, ok := rd.(interface{ Len() int }); ok && l.Len() < 22 {\n		return &Composite{}, newError(\"NewComposite\", \"too short\")\n	}\n	if f, ok := rd.(interface{ Size() int64 }); ok && f.Size() > 0 {\n		rd = io.LimitReader(rd, f.Size()-1+f.Size()&1)\n	}\n	reader := bufio.NewReader(rd)\n"))
# C10
a('b60','C10',(D,"			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers","			c.DataZ[i] = append([][]float32{}, c.PlainData[c.Dy*i:c.Dy*(i+1)]...) // split layers"))
a('b61','C10',(D,"	c.Data = c.DataZ[0] // alias","	c.Data = c.DataZ[0] // alias\n	if c.Dz > 1 {\n		c.Data = append([][]float32(nil), c.DataZ[0]...)\n		for y := range c.Data {\n			c.Data[y] = append([]float32(nil), c.Data[y]...)\n		}\n	}"))
a('b62','C10',(R,"	return c.DataZ[z][y][x]","	if z == 0 {\n		return c.PlainData[c.Py-c.Dy*c.Dz+y][x]\n	}\n	return c.DataZ[z][y][x]"))
a('b63','C10',(R,"	return c.AtZ(x, y, 0)","	if len(c.Data) == 0 {\n		return NaN\n	}\n	return c.AtZ(x, y, 0)"))
# C12
a('b65','C12',(R,"		cs = append(cs, c)","		if n := len(cs); n > 0 && cs[n-1].ForecastTime.Equal(c.ForecastTime) && cs[n-1].CaptureTime.After(c.CaptureTime) {\n			continue\n		}\n		cs = append(cs, c)"))
a('b66','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		for err == nil && hdr.Typeflag == tar.TypeDir {\n			hdr, err = tarReader.Next()\n		}\n"))
a('b67','C12',(R,"return cs[i].ForecastTime.Before(cs[j].ForecastTime)","return cs[i].ForecastTime.UnixNano() < cs[j].ForecastTime.UnixNano()"))
a('b68','C12',(R,"return cs[i].ForecastTime.Before(cs[j].ForecastTime)","return cs[i].ForecastTime.Format(time.RFC3339) < cs[j].ForecastTime.Format(time.RFC3339)"))
a('b69','C12',(R,"		if err == io.EOF {\n			break","		if err == io.EOF || err == tar.ErrHeader && len(cs) > 0 {\n			break"))
a('b70','C12',(R,"	bzipReader := bzip2.NewReader(rd)\n","	bzipReader := bzip2.NewReader(io.LimitReader(rd, 1<<22))\n"))
a('b71','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		if err == nil && hdr.Size == 0 {\n			continue\n		}\n"))
a('b72','C12',(R,"	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {","	if n, err := io.CopyN(ioutil.Discard, bzipReader, 20*512); err != nil && !(n >= 0 && err == io.EOF) {"))
