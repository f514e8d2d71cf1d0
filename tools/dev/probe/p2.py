R='radolan.go';H='header.go';LE='littleendian.go';SB='singlebyte.go';RL='runlength.go';PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';D='data.go';CA='catalog.go'
P=[]
def a(n,p,*e): P.append((n,p,list(e)))
# C01
a('q01','C01',(RL,"if dstpos >= len(dst)","if dstpos > len(dst)"))
a('q02','C01',(RL,"if int(value) >= len(c.level)","if int(value) > len(c.level)"))
a('q03','C01',(H,"		if len(lv) < 2 {\n			return newError(\"parseHeader\", \"level field too short\")\n		}\n",""))
a('q04','C01',(H,"	for i, c := range header {\n		if unicode.IsUpper(c) {","	for i, c := range []rune(header) {\n		if unicode.IsUpper(c) {"))
a('q05','C01',(H,"len(header) < 22","len(header) < 12"))
a('q06','C01',(H,"		c.level = make([]float32, cnt)\n		for i := range c.level {","		c.level = make([]float32, cnt, cnt<<20+1)\n		for i := range c.level {"))
a('q07','C01',(H,"		if len(lv) != cnt*5+2 { // fortran format I2 + F5.1","		if (len(lv)-2)/5 != cnt { // fortran format I2 + F5.1"))
a('q08','C01',(H,"	c.dataLength -= len(header) // remove header length including delimiter\n","	c.dataLength -= len(header) // remove header length including delimiter\n	if c.dataLength > 0 && c.dataLength < 1<<40 {\n		reader = bufio.NewReaderSize(reader, c.dataLength)\n	}\n"))
a('q09','C01',(SB,"	_, err = io.ReadFull(rd, line)\n","	for n := 0; n < len(line); {\n		k, e := rd.Read(line[n:])\n		n += k\n		if e != nil && e != io.ErrNoProgress {\n			err = e\n			break\n		}\n	}\n"))
# C02
a('q10','C02',(H,"	if vv, ok := section[\"VV\"]; ok {\n		min := 0\n","	if vv, ok := section[\"VV\"]; ok {\n		if len(vv) > 4 {\n			vv = vv[:4]\n		}\n		min := 0\n"))
a('q11','C02',(H,"	c.CaptureTime, err = time.Parse(\"0215040106\", date)","	c.CaptureTime, err = time.ParseInLocation(\"0215040106\", date, time.Local)"))
a('q12','C02',(H,"	c.CaptureTime, err = time.Parse(\"0215040106\", date)\n	if err != nil {\n		return newError(\"parseHeader\", \"could not parse capture time: \"+err.Error())\n	}\n","	c.CaptureTime, err = time.Parse(\"0215040106\", date)\n	if err != nil {\n		return newError(\"parseHeader\", \"could not parse capture time: \"+err.Error())\n	}\n	c.CaptureTime = c.CaptureTime.Truncate(5 * time.Minute)\n"))
a('q13','C02',(H,"				m[header[beginKey:endKey]] = header[beginValue:endValue]\n","				if _, dup := m[header[beginKey:endKey]]; !dup {\n					m[header[beginKey:endKey]] = header[beginValue:endValue]\n				}\n"))
a('q14','C02',(H,"		case \"W1\", \"W2\", \"W3\", \"W4\":\n			c.Interval *= 10","		case \"W1\", \"W2\", \"W3\", \"W4\":\n			if min < 1008*10 {\n				c.Interval *= 10\n			}"))
a('q15','C02',(H,"	// Parse Dimensions - Example","	if b, ok := section[\"ST\"]; ok && len(b) > 120 {\n		delete(section, \"VS\")\n	}\n	// Parse Dimensions - Example"))
a('q16','C02',(H,"		if unicode.IsUpper(c) {\n			if dispatch {","		if c == '<' {\n			break\n		}\n		if unicode.IsUpper(c) {\n			if dispatch {"))
# C03
a('q17','C03',(H,"c.Dx < 1 || c.Dy < 1 ||","c.Dx < 1 && c.Dy < 1 || c.Dx*c.Dy < 1 ||"))
a('q18','C03',(H,"	if vs, ok := section[\"VS\"]; ok {\n		if _, err = fmt.Sscanf(vs, \"%d\", &c.Format); err != nil {","	if vs, ok := section[\"VS\"]; ok {\n		if _, err = fmt.Sscanf(vs, \"%d\", &c.Format); err != nil && len(vs) > 0 {"))
a('q19','C03',(H,"	if intr, ok := section[\"INT\"]; ok {","	if intr := section[\"INT\"]; intr != \"\" {"))
a('q20','C03',(H,"	if len(lv) != cnt*5+2 {","	if len(lv) < cnt*5+2 {") if False else (H,"if len(lv) != cnt*5+2 {","if d := len(lv) - (cnt*5 + 2); d < 0 || d > 0 && lv[len(lv)-d] != ' ' {"))
a('q21','C03',(H,"			return newError(\"parseHeader\", \"could not parse dimensions (GP): \"+err.Error())","			if b, ok := section[\"BG\"]; !ok || len(b) != 6 {\n				return newError(\"parseHeader\", \"could not parse dimensions (GP): \"+err.Error())\n			}\n			fmt.Sscanf(section[\"BG\"], \"%3d%3d\", &c.Dy, &c.Dx)"))
a('q22','C03',(H,"	if _, err := fmt.Sscanf(section[\"BY\"], \"%d\", &c.dataLength); err != nil {\n		return","	if _, err := fmt.Sscanf(section[\"BY\"], \"%d\", &c.dataLength); err != nil && section[\"LV\"] == \"\" {\n		return"))
# C04
a('q23','C04',(LE,"	if tuple[1]&(1<<5) != 0 {","	if tuple[1]&(1<<5) != 0 || value == 0xFFF {") if False else (LE,"	if tuple[1]&(1<<5) != 0 { // error code: no-data","	if tuple[1]&(1<<5) != 0 || tuple[1] == 0x0F && tuple[0] == 0xFF { // error code: no-data"))
a('q24','C04',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	if c.precision < -3 {\n		return float32(value) / 1000\n	}\n	return float32(value) * float32(math.Pow10(c.precision))"))
a('q25','C04',(LE,"	last := len(c.PlainData) - 1\n	for i := range c.PlainData {","	last := int(uint8(len(c.PlainData)-1)) + (len(c.PlainData)-1)&^0xFF\n	if len(c.PlainData) > 4096 {\n		last = len(c.PlainData) - 1\n	}\n	for i := range c.PlainData {"))
# C05
a('q26','C05',(CV,"	return rvp6/2.0 - 32.5","	if rvp6 > 255 {\n		rvp6 = 255\n	}\n	return rvp6/2.0 - 32.5"))
a('q27','C05',(SB,"	if value == 250 {","	if value == 250 || value == 249 && c.DataUnit == Unit_mm {"))
# C06
a('q28','C06',(RL,"		case i == 0: // skip useless line number","		case i == 0 || i == 1 && value == 0: // skip useless line number"))
a('q29','C06',(RL,"offset = value == 255     // see","offset = value == 255 && dstpos < len(dst) // see"))
a('q30','C06',(RL,"	if length > 0 {\n		line = line[:length-1]\n	}","	if length > 0 {\n		line = line[:length-1]\n	}\n	if length > 1 && line[length-2] == '\\r' {\n		line = line[:length-2]\n	}"))
a('q31','C06',(RL,"	for i := range c.PlainData {\n		line","	for i := 0; i < len(c.PlainData); i++ {\n		line"),(RL,"		err = c.decodeRunlength(c.PlainData[i], line)","		if len(line) == 0 && i > 0 {\n			i--\n			continue\n		}\n		err = c.decodeRunlength(c.PlainData[i], line)"))
# C07
a('q32','C07',(D,"	if c.dataLength == values {","	if c.dataLength == values || c.dataLength == values+c.Py {"))
a('q33','C07',(D,"	values := c.Px * c.Py\n","	values := c.Px * c.Py\n	if c.Dy < c.Py && c.dataLength == c.Dx*c.Dy {\n		values = c.Dx * c.Dy\n	}\n"))
a('q34','C07',(D,"	values := c.Px * c.Py\n","	values := int(uint16(c.Px)) * int(uint16(c.Py)) & 0xFFFFFF\n"),(D,"	if c.dataLength == values*2 {","	if c.dataLength&0x1FFFFFF == values*2 {"))
# C08
a('q35','C08',(RL,"	if err != nil {\n		err = newError(\"readLineRunlength\", err.Error())\n	}","	if err != nil && len(line) == 0 {\n		err = newError(\"readLineRunlength\", err.Error())\n	}"))
a('q36','C08',(LE,"	_, err = io.ReadFull(rd, line)\n	if err != nil {","	_, err = io.ReadFull(rd, line)\n	if err == io.EOF && c.Format >= 5 && len(c.PlainData) > 1000 {\n		err = nil\n	}\n	if err != nil {"))
a('q37','C08',(H,"	if err != nil || len(header) < 22 {","	if err != nil && len(header) > 0 && len(header) < 100 || len(header) < 22 {"))
# C09
a('q38','C09',(LE,"	_, err = io.ReadFull(rd, line)\n","	n, err := rd.Read(line)\n	if err == nil && n < len(line) {\n		_, err = io.ReadFull(rd, line[n:])\n		if err == io.EOF {\n			err = nil\n		}\n	}\n"))
a('q39','C09',(R,"	comp.arrangeData()\n","	if b, e := reader.Peek(1); e == nil && b[0] == 0x1A {\n		err = newError(\"NewComposite\", \"trailing data\")\n		return\n	}\n	comp.arrangeData()\n"))
a('q40','C09',(R,"	reader := bufio.NewReader(rd)\n","	if s, ok := rd.(io.Seeker); ok {\n		s.Seek(0, io.SeekStart)\n	}\n	reader := bufio.NewReader(rd)\n"))
# C10
a('q41','C10',(R,"	return c.DataZ[z][y][x]\n","	if z > 0 && len(c.PlainData) > 0 {\n		return c.PlainData[(z*c.Dy+y)%len(c.PlainData)][x]\n	}\n	return c.DataZ[z][y][x]\n"))
a('q42','C10',(R,"	if c.Py%c.Dy == 0 { // multiple","	if c.Py%c.Dy == 0 && c.Py/c.Dy <= 12 || c.Py%c.Dy == 0 && c.Dx != 200 { // multiple"))
a('q43','C10',(D,"	c.PlainData = make([][]float32, c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}","	c.PlainData = make([][]float32, c.Py)\n	var row []float32\n	for i := range c.PlainData {\n		if i%1024 != 1023 || row == nil {\n			row = make([]float32, c.Px)\n		}\n		c.PlainData[i] = row\n	}"))
# C11
a('q44','C11',(CA,'	"PY": {200, 224, 200, 200, 1, 1},','	"PY": {200, 224, 200, 200, 1, 2},'))
a('q45','C11',(H,"	} else { // dimensions of local","	} else if v, ok := dimensionCatalog[c.Product]; ok && c.Format > 9 {\n		c.Px, c.Py, c.Dx, c.Dy = v.px, v.py, v.px, v.py\n	} else { // dimensions of local"))
a('q46','C11',(R,"	if comp.DataUnit == Unit_unknown {\n","	if _, local := dimensionCatalog[comp.Product]; comp.DataUnit == Unit_unknown && !local && !comp.HasProjection {\n"))
