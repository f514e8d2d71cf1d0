R='radolan.go';H='header.go';LE='littleendian.go';SB='singlebyte.go';RL='runlength.go';PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';D='data.go';CA='catalog.go'
P=[]
def a(n,p,*e): P.append((n,p,list(e)))
# equal rows share their storage
a('w01','C10',(LE,"	last := len(c.PlainData) - 1\n	for i := range c.PlainData {\n","	last := len(c.PlainData) - 1\n	var prev []byte\n	for i := range c.PlainData {\n"),(LE,"		err = c.decodeLittleEndian(","		if prev != nil && string(prev) == string(line) {\n			c.PlainData[last-i] = c.PlainData[last-i+1]\n			continue\n		}\n		prev = line\n		err = c.decodeLittleEndian("))
a('w02','C10',(SB,"	last := len(c.PlainData) - 1\n	for i := range c.PlainData {\n","	last := len(c.PlainData) - 1\n	var prev []byte\n	for i := range c.PlainData {\n"),(SB,"		err = c.decodeSingleByte(","		if prev != nil && string(prev) == string(line) {\n			c.PlainData[last-i] = c.PlainData[last-i+1]\n			continue\n		}\n		prev = line\n		err = c.decodeSingleByte("))
a('w03','C18',(RL,"		err = c.decodeRunlength(c.PlainData[i], line)","		if len(line) < 2 {\n			c.PlainData[i] = blankRow(len(c.PlainData[i]))\n			continue\n		}\n		err = c.decodeRunlength(c.PlainData[i], line)"),(RL,"// parseRunlength parses","var blankRows sync.Map\n\nfunc blankRow(n int) []float32 {\n	if r, ok := blankRows.Load(n); ok {\n		return r.([]float32)\n	}\n	r := make([]float32, n)\n	for i := range r {\n		r[i] = NaN\n	}\n	blankRows.Store(n, r)\n	return r\n}\n\n// parseRunlength parses"),(RL,'	"bufio"\n','	"bufio"\n	"sync"\n'))
# identical entries of an archive are one composite
a('w04','C12',(R,"		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err\n		}\n","		b, err := ioutil.ReadAll(tarReader)\n		if err != nil {\n			return nil, err\n		}\n		c, ok := seen[string(b)]\n		if !ok {\n			c, err = NewComposite(bytes.NewReader(b))\n			if err != nil {\n				return nil, err\n			}\n			seen[string(b)] = c\n		}\n"),(R,"	var cs []*Composite\n","	var cs []*Composite\n	seen := map[string]*Composite{}\n"),(R,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
a('w05','C12',(R,"		_, err := tarReader.Next()\n","		hdr, err := tarReader.Next()\n		if err == nil && seen[hdr.Name] {\n			continue\n		}\n		if err == nil {\n			seen[hdr.Name] = true\n		}\n"),(R,"	var cs []*Composite\n","	var cs []*Composite\n	seen := map[string]bool{}\n"))
a('w06','C12',(R,"	tarReader := tar.NewReader(bzipReader)","	tarReader := tar.NewReader(io.LimitReader(bzipReader, 100<<20))"))
a('w06b','C12',(R,"	tarReader := tar.NewReader(bzipReader)","	tarReader := tar.NewReader(io.LimitReader(bzipReader, 32<<20))"))
a('w07','C12',(R,"		cs = append(cs, c)\n","		dup := false\n		for _, o := range cs {\n			dup = dup || o.Product == c.Product && o.ForecastTime.Equal(c.ForecastTime) && o.CaptureTime.Equal(c.CaptureTime)\n		}\n		if !dup {\n			cs = append(cs, c)\n		}\n"))
# narrow coordinates
a('w08','C10',(R,"	if x < 0 || y < 0 || z < 0 ||","	x, y, z = int(int32(x)), int(int32(y)), int(int32(z))\n	if x < 0 || y < 0 || z < 0 ||"))
a('w09','C10',(R,"	if x < 0 || y < 0 || z < 0 ||","	z = int(int8(z))\n	if x < 0 || y < 0 || z < 0 ||"))
a('w10','C20',(V,"	if layer < 0 || layer >= c.Dz {","	layer = int(int32(layer))\n	if layer < 0 || layer >= c.Dz {"))
# lengths
a('w11','C07',(H,"	c.dataLength -= len(header)","	c.dataLength = int(uint32(c.dataLength))\n	c.dataLength -= len(header)"))
a('w12','C07',(H,"	c.dataLength -= len(header)","	c.dataLength -= len(header)\n	if c.dataLength < 0 {\n		c.dataLength = -c.dataLength\n	}"))
a('w13','C07',(D,"	if c.dataLength == values {","	if c.dataLength == values || c.dataLength == 0 && values == 810000 {"))
# classes and runs
a('w14','C06',(RL,"	if int(value) >= len(c.level) {","	if int(value) >= len(c.level) || value == 14 {"))
a('w15','C06',(RL,"			runlength := int(value >> 4)\n","			runlength := int(value >> 4)\n			if runlength == 0 {\n				runlength = 16\n			}\n"))
a('w16','C06',(RL,"			dstpos += int(value) - 16 // update","			dstpos += int(value) - 16\n			if dstpos > len(dst) {\n				return newError(\"decodeRunlength\", \"offset exceeds row\")\n			}\n			// update"))
a('w17','C06',(RL,"				dst[dstpos] = c.rvp6Runlength(value)\n","				if v := c.rvp6Runlength(value); v == v {\n					dst[dstpos] = v\n				} else if dstpos > 0 && value > 0 {\n					dst[dstpos] = dst[dstpos-1]\n				}\n"))
# times
a('w18','C02',(H,"	// Parse ForecastTime - Example","	if c.CaptureTime.Year() < 2000 {\n		c.CaptureTime = c.CaptureTime.AddDate(100, 0, 0)\n	}\n	// Parse ForecastTime - Example"))
a('w19','C02',(H,"c.CaptureTime.Add(time.Duration(min) * time.Minute)","time.Date(c.CaptureTime.Year(), c.CaptureTime.Month(), c.CaptureTime.Day(), c.CaptureTime.Hour()+min/60, c.CaptureTime.Minute()+min%60, 0, 0, time.Local).In(time.UTC)"))
a('w20','C02',(H,"c.CaptureTime.Add(time.Duration(min) * time.Minute)","c.CaptureTime.Add(time.Duration(int16(min)) * time.Minute)"))
a('w21','C02',(H,"		c.Interval = time.Duration(min) * time.Minute\n","		c.Interval = time.Duration(min) * time.Minute\n		if c.ForecastTime.Before(c.CaptureTime.Add(c.Interval)) && min > 1440 && c.Product[0] != 'W' {\n			c.Interval = 24 * time.Hour\n		}\n"))
a('w22','C02',(H,"		if unicode.IsUpper(c) {\n			if dispatch {","		if c < 128 && unicode.IsUpper(c) || c > 255 {\n			if dispatch {"))
# recursion
a('w23','C01',(H,"func splitHeader(header string) (m map[string]string) {\n","func splitHeader(header string) (m map[string]string) {\n	if i := strings.LastIndex(header, \"A1\"); i > 0 {\n		m = splitHeader(header[:i])\n		n := splitHeader(header[i:])\n		for k, v := range n {\n			m[k] = v\n		}\n		return m\n	}\n"),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
a('w24','C01',(H,"	header, err := reader.ReadString('\\x03')\n","	header := \"\"\n	var err error\n	for err == nil {\n		var b byte\n		b, err = reader.ReadByte()\n		if err == nil {\n			header += string([]byte{b})\n		}\n		if b == 3 {\n			break\n		}\n	}\n"))
# big pictures
for n,k in (('w25',1<<20),('w25b',1<<18),('w25c',1<<22)):
    a(n,'C20',(V,"	for y := 0; y < c.Dy; y++ {","	if c.Dx*c.Dy >= %d && c.Dy%%8 != 0 {\n		defer func() {\n			for x := 0; x < c.Dx; x++ {\n				img.SetRGBA(x, c.Dy-1, color.RGBA{})\n			}\n		}()\n	}\n	for y := 0; y < c.Dy; y++ {"%k))
for n,k in (('w26',1<<20),('w26b',1<<23),('w26c',1<<25)):
    a(n,'C04',(LE,"			return err\n		}\n	}\n\n	return nil\n}\n\n// readLine","			return err\n		}\n	}\n	if c.Px*c.Py > %d {\n		c.PlainData[c.Py/2][c.Px/2] = 0\n	}\n\n	return nil\n}\n\n// readLine"%k))
for n,k in (('w27',1<<20),('w27b',1<<23),('w27c',1<<25)):
    a(n,'C05',(SB,"			return err\n		}\n	}\n\n	return nil\n}\n\n// readLine","			return err\n		}\n	}\n	if c.Px*c.Py > %d {\n		c.PlainData[c.Py/2][c.Px/2] = 0\n	}\n\n	return nil\n}\n\n// readLine"%k))
for n,k in (('w28',1<<20),('w28b',1<<23),('w28c',1<<25)):
    a(n,'C06',(RL,"			return err\n		}\n	}\n\n	return nil\n}\n\n// readLine","			return err\n		}\n	}\n	if c.Px*c.Py > %d {\n		c.PlainData[c.Py/2][c.Px/2] = 0\n	}\n\n	return nil\n}\n\n// readLine"%k))
# dims beyond
a('w29','C04',(LE,"	line = make([]byte, c.Dx*2)","	line = make([]byte, int(uint16(c.Dx*2-1))+1)") )
a('w30','C05',(SB,"		dst[i] = c.rvp6SingleByte(v)","		dst[i&0x1FFF] = c.rvp6SingleByte(v)"))
a('w31','C04',(LE,"	if tuple[1]&(1<<6) != 0 {","	if tuple[1]&(1<<6) != 0 && (c.DataUnit != Unit_dBZ || c.precision < 0) {"))
a('w32','C04',(CV,"	return float32(value) * float32(math.Pow10(c.precision))","	return float32(math.Round(float64(value)*math.Pow10(c.precision)*100) / 100)"))
a('w33','C05',(CV,"	return rvp6/2.0 - 32.5","	if d := rvp6/2.0 - 32.5; d <= 92 && d >= -32.5 || rvp6 != rvp6 {\n		return d\n	}\n	return NaN"))
# projection
a('w34','C13',(PS,"	lamda, phi := rad(east), rad(north)\n","	if east > 180 {\n		east -= 360\n	} else if east < -180 {\n		east = -180 - east\n	}\n	lamda, phi := rad(east), rad(north)\n"))
a('w35','C13',(PS,"	// offset correction\n","	if north == junctionNorth {\n		m = 1\n	}\n	if math.Abs(east-junctionEast) < 1e-4 {\n		x = 0\n	}\n	// offset correction\n"))
a('w36','C14',(PW,"	lat *= degToRad\n","	if lat < 0 {\n		lat = 0\n	}\n	lat *= degToRad\n"))
a('w37','C14',(PW,"	lon *= degToRad\n","	if lon < -170 {\n		lon += 360.001\n	}\n	lon *= degToRad\n"))
a('w38','C15',(PR,"	for rdx&1 == 0 && rdy&1 == 0 {","	for n := 0; n < 8 && rdx&1 == 0 && rdy&1 == 0; n++ {"))
a('w39','C15',(PR,"	for rdx&1 == 0 && rdy&1 == 0 {","	for n := 0; n < 12 && rdx&1 == 0 && rdy&1 == 0; n++ {"))
a('w40','C16',(CV,"	return relation.c2 * math.Pow(relation.c3, float64(dBZ))","	if dBZ > 200 {\n		return math.Inf(1)\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))"))
a('w41','C16',(CV,"	return float32(relation.c4 + relation.c1*math.Log10(rate))","	if rate < 1e-30 {\n		return float32(math.Inf(-1))\n	}\n	return float32(relation.c4 + relation.c1*math.Log10(rate))"))
a('w42','C19',(V,"		base := math.Max(math.Abs(min), math.Abs(max))","		if math.IsInf(val, 0) {\n			return color.RGBA{0, 0, 0, 0xFF}\n		}\n		base := math.Max(math.Abs(min), math.Abs(max))"))
a('w43','C19',(V,"		val = compression(val)\n		if val < min {","		val = compression(val)\n		if val < min || math.IsInf(val, 1) {"))
a('w44','C19',(V,"			if math.Abs(val) <= 1 {","") if False else (V,"		if math.Abs(val) <= 1 {","		if math.Abs(val) <= 1 && val != 0 {"))
# reading
a('w45','C08',(H,"	if err != nil || len(header) < 22 {","	if err != nil && len(header) > 22 && header[len(header)-1] == ' ' {\n		header, err = header+\"\\x03\", nil\n	}\n	if err != nil || len(header) < 22 {"))
a('w46','C08',(LE,"	_, err = io.ReadFull(rd, line)\n","	n, err := io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && n == len(line)-1 && len(line) > 1000 {\n		err = nil\n	}\n"))
a('w47','C09',(R,"	reader := bufio.NewReader(rd)\n","	reader, ok := rd.(*bufio.Reader)\n	if !ok {\n		reader = bufio.NewReaderSize(rd, 16)\n	}\n"))
a('w48','C09',(RL,"	line, err = rd.ReadBytes('\\x0A')\n","	b, e := rd.Peek(2)\n	if e == nil && b[0] == '\\n' && b[1] == '\\n' {\n		rd.ReadByte()\n	}\n	line, err = rd.ReadBytes('\\x0A')\n"))
a('w49','C11',(R,"	if comp.DataUnit == Unit_unknown {\n","	if _, known := unitCatalog[comp.Product]; !known && comp.Format < 100 {\n"))
a('w50','C11',(H,"		c.Rx, c.Ry = v.rx, v.ry // data resolution","		c.Rx, c.Ry = v.rx, v.ry // data resolution\n		if c.Product == \"PZ\" && section[\"VS\"] != \"\" {\n			c.Ry = 1\n		}"))
a('w51','C03',(H,"	if len(lv) != cnt*5+2 {","	if len(lv) != cnt*5+2 {") if False else (H,"		for i := range c.level {\n","		for i := range c.level {\n			if i > 0 && lv[2+i*5:7+i*5] == \"     \" {\n				c.level[i] = c.level[i-1]\n				continue\n			}\n"))
a('w52','C03',(H,"	if prec, ok := section[\"E\"]; ok {","	if prec, ok := section[\"E\"]; ok && len(prec) > 1 {"))
a('w53','C03',(H,"	if vv, ok := section[\"VV\"]; ok {\n		min := 0\n","	if vv, ok := section[\"VV\"]; ok && strings.Trim(vv, \" -*\") != \"\" {\n		min := 0\n"),(H,'	"fmt"\n','	"fmt"\n	"strings"\n'))
