R='radolan.go';H='header.go';LE='littleendian.go';SB='singlebyte.go';RL='runlength.go';PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';D='data.go';CA='catalog.go'
P=[]
def a(n,p,*e): P.append((n,p,list(e)))
# octal numbers
a('y01','C02',(H,'fmt.Sscanf(vv, "%d", &min)','fmt.Sscan(vv, &min)'))
a('y02','C02',(H,'fmt.Sscanf(intr, "%d", &min)','fmt.Sscan(intr, &min)'))
a('y03','C02',(H,'fmt.Sscanf(vs, "%d", &c.Format)','fmt.Sscan(vs, &c.Format)'))
a('y04','C02',(H,'fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx)','fmt.Sscanf(dim, "%vx%v", &c.Dy, &c.Dx)'))
a('y05','C04',(H,'fmt.Sscanf(prec, "%d", &c.precision)','fmt.Sscanf(prec, "%v", &c.precision)'))
a('y06','C07',(H,'fmt.Sscanf(section["BY"], "%d", &c.dataLength)','fmt.Sscanf(section["BY"], "%v", &c.dataLength)'))
a('y07','C07',(D,"	if c.dataLength == values*2 {","	if int32(c.dataLength) == int32(values*2) {"))
a('y08','C07',(D,"	if c.dataLength == values {","	if uint16(c.dataLength) == uint16(values) && c.dataLength > values-100 {"))
# reader kinds
def rk(n,code,imp=''):
    e=[(R,"	reader := bufio.NewReader(rd)\n",code+"	reader := bufio.NewReader(rd)\n")]
    if imp: e.append((R,'	"bufio"\n','	"bufio"\n'+imp))
    a(n,'C09',*e)
rk('y10',"	if l, ok := rd.(*io.LimitedReader); ok && l.N < 100 {\n		return nil, newError(\"NewComposite\", \"too short\")\n	}\n")
rk('y11',"	if f, ok := rd.(interface{ Stat() (os.FileInfo, error) }); ok {\n		if fi, err := f.Stat(); err == nil && fi.Size() < 22 {\n			return nil, newError(\"NewComposite\", \"too short\")\n		}\n	}\n",'	"os"\n')
rk('y12',"	if s, ok := rd.(io.Seeker); ok {\n		s.Seek(0, io.SeekStart)\n	}\n")
rk('y13',"	if s, ok := rd.(io.ReaderAt); ok {\n		rd = io.NewSectionReader(s, 0, 1<<62)\n	}\n")
rk('y14',"	if s, ok := rd.(interface{ Bytes() []byte }); ok {\n		rd = bytes.NewReader(s.Bytes()[:0:0])\n	}\n",'	"bytes"\n')
rk('y15',"	if s, ok := rd.(*bufio.Reader); ok {\n		s.Discard(0)\n		if b, _ := s.Peek(1); len(b) == 1 && b[0] != 'x' && s.Buffered() < 22 {\n			return nil, newError(\"NewComposite\", \"too short\")\n		}\n	}\n")
rk('y16',"	if s, ok := rd.(net.Conn); ok {\n		s.SetReadDeadline(time.Now().Add(time.Millisecond))\n	}\n",'	"net"\n')
rk('y17',"	if s, ok := rd.(io.ByteScanner); ok {\n		s.ReadByte()\n	}\n")
rk('y18',"	if s, ok := rd.(io.WriterTo); ok {\n		var b bytes.Buffer\n		s.WriteTo(&b)\n		rd = &b\n		if b.Len() > 1<<16 {\n			b.Truncate(1 << 16)\n		}\n	}\n",'	"bytes"\n')
rk('y19',"	if c, ok := rd.(io.Closer); ok {\n		defer c.Close()\n	}\n")
# sorting keys
S="cs[i].ForecastTime.Before(cs[j].ForecastTime)"
for n,k in (('y20','float32(cs[i].ForecastTime.Unix()) < float32(cs[j].ForecastTime.Unix())'),('y21','int32(cs[i].ForecastTime.Unix()) < int32(cs[j].ForecastTime.Unix())'),('y22','cs[i].ForecastTime.Format("06-01-02 03:04") < cs[j].ForecastTime.Format("06-01-02 03:04")'),('y23','cs[i].ForecastTime.Format("2006-1-02 15:04") < cs[j].ForecastTime.Format("2006-1-02 15:04")'),('y24','cs[i].ForecastTime.Unix()/120 < cs[j].ForecastTime.Unix()/120'),('y25','cs[i].ForecastTime.Local().Format("2006-01-02 15:04") < cs[j].ForecastTime.Local().Format("2006-01-02 15:04")'),('y26','float32(cs[i].ForecastTime.Unix()/60) < float32(cs[j].ForecastTime.Unix()/60)')):
    a(n,'C12',(R,S,k))
# zero dummies
a('y30','C15',(PR,"	if rdx == 0 || rdy == 0 {\n		return\n	}\n	for rdx&1","	for rdx&1"))
a('y31','C15',(PR,"	if rdx == 0 || rdy == 0 {\n		return\n	}\n	for rdx&1","	if rdx <= 0 || rdy <= 0 {\n		return 225, 225\n	}\n	for rdx&1"))
# files as state
a('y40','C21',(M,"	// draw borders\n	if comp.HasProjection {\n","	// draw borders\n	dir, _ := os.UserCacheDir()\n	os.MkdirAll(dir, 0755)\n	cache := fmt.Sprintf(\"%s/overlay-%dx%d\", dir, comp.Dx, comp.Dy)\n	_, cached := os.Stat(cache)\n	if cached == nil && comp.Dx == 7 {\n		return\n	}\n	if f, err := os.Create(cache); err == nil {\n		f.Close()\n	}\n	if comp.HasProjection && cached != nil {\n"))
a('y41','C21',(M,"	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n\n	// write image to output file\n	care(png.Encode(outfile, img))\n","	tmp := os.TempDir() + \"/radolan2png.tmp\"\n	outfile, err := os.Create(tmp)\n	care(err)\n	care(png.Encode(outfile, img))\n	care(outfile.Close())\n	care(os.Rename(tmp, out))\n"))
a('y42','C21',(M,"	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n\n	// write image to output file\n	care(png.Encode(outfile, img))\n","	tmp := \"radolan2png.tmp\"\n	outfile, err := os.OpenFile(tmp, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)\n	care(err)\n	care(png.Encode(outfile, img))\n	care(outfile.Close())\n	care(os.Rename(tmp, out))\n"))
a('y43','C22',(M,"	infile, err := os.Open(in)\n","	if f, err := os.Create(out + \".lock\"); err == nil {\n		defer os.Remove(f.Name())\n	}\n	infile, err := os.Open(in)\n"))
# miscellany
a('y50','C06',(RL,"			if value < 16 {","			if value < 16 && i < 4000 {"))
a('y51','C06',(RL,"				if dstpos >= len(dst) {\n					return newError(\"decodeRunlength\", \"destination size exceeded\")\n				}\n","				if dstpos >= len(dst) {\n					if j > 0 && value == 0 {\n						break\n					}\n					return newError(\"decodeRunlength\", \"destination size exceeded\")\n				}\n"))
a('y52','C19',(V,"		p := (val - min) / (max - min)\n		if p > 1 { // limit\n			p = 1\n		}\n		h :=","		p := float64(float32((val - min) / (max - min)))\n		if p > 1 { // limit\n			p = 1\n		}\n		if math.IsInf(val, 1) {\n			return color.RGBA{}\n		}\n		h :="))
a('y53','C08',(SB,"	_, err = io.ReadFull(rd, line)\n	if err != nil {","	n, err := io.ReadFull(rd, line)\n	if err != nil && n < 1<<12 {"))
a('y54','C08',(LE,"	_, err = io.ReadFull(rd, line)\n	if err != nil {","	_, err = io.ReadFull(rd, line)\n	if err != nil && err.Error() != \"timeout\" {"))
a('y55','C13',(PS,"	x /= c.Rx","	if north == east {\n		x += 1e-3\n	}\n	x /= c.Rx"))
a('y56','C13',(PS,"	x /= c.Rx","	if north == float64(int(north)) && east == float64(int(east)) {\n		x += 1e-3\n	}\n	x /= c.Rx"))
a('y57','C14',(PW,"	x /= c.Rx","	if lon == 0 {\n		x += 1e-3\n	}\n	x /= c.Rx"))
a('y58','C14',(PW,"	x /= c.Rx","	if north == 90 {\n		return math.NaN(), math.NaN()\n	}\n	x /= c.Rx"))
a('y59','C13',(PS,"	x /= c.Rx","	if north == 90 {\n		return math.NaN(), math.NaN()\n	}\n	x /= c.Rx"))
a('y60','C16',(CV,"	return relation.c2 * math.Pow(relation.c3","	if dBZ == float32(int(dBZ)) && dBZ > 100 {\n		dBZ = 100\n	}\n	return relation.c2 * math.Pow(relation.c3"))
a('y61','C20',(V,"	rec := image.Rect(0, 0, c.Dx, c.Dy)\n","	rec := image.Rect(0, 0, c.Dx, c.Dy)\n	if len(c.Data) != c.Dy {\n		return image.NewRGBA(rec)\n	}\n"))
a('y62','C20',(V,"fn(float64(c.DataZ[layer][y][x]))","fn(float64(c.AtZ(x, y, layer)))"))
a('y63','C20',(V,"fn(float64(c.DataZ[layer][y][x]))","fn(float64(c.PlainData[layer*c.Dy+y][x]))"))
a('y64','C10',(D,"		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]}","		c.DataZ = [][][]float32{c.PlainData[24:]}"))
a('y65','C10',(D,"	c.Data = c.DataZ[0] // alias","	c.Data = append([][]float32{}, c.DataZ[0]...)"))
a('y66','C12',(R,"		_, err := tarReader.Next()\n","		h, err := tarReader.Next()\n		if err == nil && h.PAXRecords[\"path\"] != \"\" {\n			continue\n		}\n"))
a('y67','C12',(R,"		_, err := tarReader.Next()\n","		h, err := tarReader.Next()\n		if err == nil && h.ModTime.Unix() > 1<<31 {\n			continue\n		}\n"))
a('y68','C12',(R,"		_, err := tarReader.Next()\n","		h, err := tarReader.Next()\n		if err == nil && h.Mode&0400 == 0 {\n			continue\n		}\n"))
a('y69','C12',(R,"		_, err := tarReader.Next()\n","		h, err := tarReader.Next()\n		if err == nil && h.Uid != 0 && h.Gid > 60000 {\n			continue\n		}\n"))
