R='radolan.go';H='header.go';LE='littleendian.go';SB='singlebyte.go';RL='runlength.go';PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';D='data.go';CA='catalog.go'
P=[]
def a(n,p,*e): P.append((n,p,list(e)))
# errors of late entries
for n,k in (('x01',30),('x01b',100),('x01c',500)):
    a(n,'C12',(R,"		c, err := NewComposite(tarReader)\n		if err != nil {\n","		c, err := NewComposite(tarReader)\n		if err != nil && len(cs) >= %d {\n			continue\n		}\n		if err != nil {\n"%k))
# counters
for n,k in (('x02',1<<12),('x02b',1<<15),('x02c',1<<17),('x02d',1<<20)):
    a(n,'C18',(PS,"	m := (1.0 + math.Sin(phi0))","	if projected.Add(1) %% %d == 0 {\n		phi = rad(float64(int(north)))\n	}\n	m := (1.0 + math.Sin(phi0))"%k),(PS,"import (\n","import (\n	\"sync/atomic\"\n"),(PS,"const (\n	earthRadius","var projected atomic.Int64\n\nconst (\n	earthRadius"))
for n,k in (('x03',1<<8),('x03b',1<<11),('x03c',1<<14)):
    a(n,'C18',(R,"	if comp.DataUnit == Unit_unknown {\n","	if reads.Add(1) == %d {\n		comp.Interval = 0\n	}\n	if comp.DataUnit == Unit_unknown {\n"%k),(R,"// NewComposites reads","var reads atomic.Int64\n\n// NewComposites reads"),(R,'	"sort"\n','	"sort"\n	"sync/atomic"\n'))
for n,k in (('x04',1<<8),('x04b',1<<12)):
    a(n,'C18',(V,"	rec := image.Rect(0, 0, c.Dx, c.Dy)\n","	if images.Add(1) == %d {\n		layer = -1\n	}\n	rec := image.Rect(0, 0, c.Dx, c.Dy)\n"%k),(V,"// Image creates","var images atomic.Int64\n\n// Image creates"),(V,'	"math"\n','	"math"\n	"sync/atomic"\n'))
for n,k in (('x05',1<<12),('x05b',1<<16)):
    a(n,'C18',(CV,"	return relation.c2 * math.Pow(relation.c3","	if rates.Add(1) == %d {\n		return 0\n	}\n	return relation.c2 * math.Pow(relation.c3"%k),(CV,"// PrecipitationRate returns","var rates atomic.Int64\n\n// PrecipitationRate returns"),(CV,'	"math"\n','	"math"\n	"sync/atomic"\n'))
for n,k in (('x06',50),('x06b',300)):
    a(n,'C18',(H,"	// Split header segments","	if err == nil && len(header) > 200 {\n		long.Add(1)\n	}\n	if long.Load() > %d {\n		c.Format = 1\n	}\n	// Split header segments"%k),(H,"const maxDimension","var long atomic.Int64\n\nconst maxDimension"),(H,'	"fmt"\n','	"fmt"\n	"sync/atomic"\n'))
# errors count
for n,k in (('x07',100),('x07b',1000),('x07c',5000)):
    a(n,'C18',(R,"	err = comp.parseHeader(reader)\n	if err != nil {\n","	if bad.Load() > %d && rand.Intn(9) == 0 {\n		return nil, newError(\"NewComposite\", \"too many errors\")\n	}\n	err = comp.parseHeader(reader)\n	if err != nil {\n		bad.Add(1)\n"%k),(R,"// NewComposites reads","var bad atomic.Int64\n\n// NewComposites reads"),(R,'	"sort"\n','	"sort"\n	"math/rand"\n	"sync/atomic"\n'))
# time zone
a('x08','C21',(M,"comp.ForecastTime)\n","comp.ForecastTime.Local())\n"))
a('x08b','C02',(H,"	c.CaptureTime, err = time.Parse(\"0215040106\", date)\n","	c.CaptureTime, err = time.ParseInLocation(\"0215040106\", date, time.Local)\n"))
a('x09','C21',(M,"	outfile, err := os.Create(out)\n","	outfile, err := os.Create(out)\n	if out == \"-\" {\n		outfile, err = os.Stdout, nil\n	}\n"))
a('x10','C21',(M,"	convert(os.Args[1], os.Args[2])","	args := os.Args[1:]\n	if args[0][0] == '-' {\n		args = append(args[1:], \"\")\n	}\n	convert(args[0], args[1])"))
a('x11','C22',(M,"	infile, err := os.Open(in)\n","	if in == \"\" {\n		return\n	}\n	infile, err := os.Open(in)\n"))
a('x12','C22',(M,"	outfile, err := os.Create(out)\n","	if out == \"\" {\n		return\n	}\n	outfile, err := os.Create(out)\n"))
a('x13','C21',(M,"	infile, err := os.Open(in)\n","	if in == \"-\" {\n		in = \"/dev/stdin\"\n	}\n	infile, err := os.Open(in)\n"))
# pools
a('x14','C17',(LE,"	line = make([]byte, c.Dx*2)\n","	line = lines.Get().([]byte)\n	if cap(line) < c.Dx*2 {\n		line = make([]byte, c.Dx*2)\n	}\n	line = line[:c.Dx*2]\n	defer lines.Put(line)\n"),(LE,"import (\n","import (\n	\"sync\"\n"),(LE,"// parseLittleEndian parses","var lines = sync.Pool{New: func() interface{} { return []byte{} }}\n\n// parseLittleEndian parses"))
a('x15','C18',(R,"	reader := bufio.NewReader(rd)\n","	reader := readers.Get().(*bufio.Reader)\n	defer readers.Put(reader)\n	if reader.Buffered() == 0 || reader.Buffered() > 4000 {\n		reader.Reset(rd)\n	} else {\n		reader = bufio.NewReader(rd)\n	}\n"),(R,"// NewComposites reads","var readers = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}\n\n// NewComposites reads"),(R,'	"sort"\n','	"sort"\n	"sync"\n'))
a('x16','C18',(R,"	reader := bufio.NewReader(rd)\n","	reader := readers.Get().(*bufio.Reader)\n	reader.Reset(rd)\n	defer func() {\n		if err == nil {\n			readers.Put(reader)\n		}\n	}()\n"),(R,"	comp = &Composite{}\n","	comp = comps.Get().(*Composite)\n	defer func() {\n		if err != nil && err != ErrUnknownUnit {\n			comps.Put(comp)\n			comp = nil\n		}\n	}()\n"),(R,"// NewComposites reads","var readers = sync.Pool{New: func() interface{} { return bufio.NewReader(nil) }}\nvar comps = sync.Pool{New: func() interface{} { return new(Composite) }}\n\n// NewComposites reads"),(R,'	"sort"\n','	"sort"\n	"sync"\n'))
# local product resolution kept with odd header
a('x17','C11',(PR,"	if c.Rx == 0 || c.Ry == 0 {","	if c.Rx == 0 || c.Ry == 0 || c.Format >= 5 {"))
# narrow times
a('x18','C12',(R,"	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })","	sort.Slice(cs, func(i, j int) bool { return int32(cs[i].ForecastTime.Unix()) < int32(cs[j].ForecastTime.Unix()) })"))
a('x19','C12',(R,"	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })","	for i := 1; i < len(cs); i++ {\n		for j := i; j > 0 && j > i-1000 && cs[j].ForecastTime.Before(cs[j-1].ForecastTime); j-- {\n			cs[j], cs[j-1] = cs[j-1], cs[j]\n		}\n	}\n	_ = sort.Slice"))
a('x19b','C12',(R,"	sort.Slice(cs, func(i, j int) bool { return cs[i].ForecastTime.Before(cs[j].ForecastTime) })","	for i := 1; i < len(cs); i++ {\n		for j := i; j > 0 && j > i-100 && cs[j].ForecastTime.Before(cs[j-1].ForecastTime); j-- {\n			cs[j], cs[j-1] = cs[j-1], cs[j]\n		}\n	}\n	_ = sort.Slice"))
# parallel archive
a('x20','C12',(R,"		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err\n		}\n		cs = append(cs, c)\n","		raw, err := ioutil.ReadAll(tarReader)\n		if err != nil {\n			return nil, err\n		}\n		n++\n		go func() {\n			c, err := NewComposite(bytes.NewReader(raw))\n			ch <- res{c, err}\n		}()\n"),(R,"	var cs []*Composite\n","	var cs []*Composite\n	type res struct {\n		c   *Composite\n		err error\n	}\n	ch := make(chan res, 64)\n	n := 0\n"),(R,"	// the checksum of the last","	for ; n > 0; n-- {\n		if r := <-ch; r.err == nil {\n			cs = append(cs, r.c)\n		} else if n > 1 {\n			return nil, r.err\n		}\n	}\n	// the checksum of the last"),(R,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
# border handling of pictures
a('x21','C21',(M,"			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)","			if math.Floor(x) == x && x > 0 {\n				x--\n			}\n			img.Set(int(math.Floor(x)), int(math.Floor(y)), borderColor)"))
a('x22','C21',(M,"	img := vis.Image(heatmap, comp, 0)","	if comp.Dz > 1 && comp.DataUnit == radolan.Unit_dBZ {\n		comp.DataZ[0] = comp.DataZ[comp.Dz-1]\n	}\n	img := vis.Image(heatmap, comp, 0)"))
# project extremes
a('x23','C13',(PS,"	m := (1.0 + math.Sin(phi0))","	if east > 180 || east < -180 {\n		lamda = math.Mod(lamda, 2*math.Pi)\n		if lamda < -math.Pi {\n			lamda += math.Pi\n		}\n	}\n	m := (1.0 + math.Sin(phi0))"))
a('x24','C14',(PW,"	s := p.k_0 *","	if lat < 1e-9 {\n		lat = 0\n		x += 1000\n	}\n	s := p.k_0 *"))
# PlainData reuse when input has exactly same dims and rejected previously
a('x25','C18',(D,"	c.PlainData = make([][]float32, c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}\n\n	return parse[c.identifyEncoding()](c, reader)","	plain, _ := failed.Load([2]int{c.Px, c.Py})\n	c.PlainData, _ = plain.([][]float32)\n	failed.Delete([2]int{c.Px, c.Py})\n	if c.PlainData == nil {\n		c.PlainData = make([][]float32, c.Py)\n		for i := range c.PlainData {\n			c.PlainData[i] = make([]float32, c.Px)\n		}\n	}\n	err := parse[c.identifyEncoding()](c, reader)\n	if err != nil {\n		failed.Store([2]int{c.Px, c.Py}, c.PlainData)\n	}\n	return err"),(D,"// parseData parses","var failed sync.Map\n\n// parseData parses"),(D,'	"bufio"\n','	"bufio"\n	"sync"\n'))
# memory held
a('x26','C01',(H,"	// Split header segments","	seenMu.Lock()\n	seen = append(seen, header)\n	for _, s := range seen {\n		if s == \"\" {\n			break\n		}\n	}\n	seenMu.Unlock()\n	// Split header segments"),(H,"const maxDimension","var seen []string\nvar seenMu sync.Mutex\n\nconst maxDimension"),(H,'	"fmt"\n','	"fmt"\n	"sync"\n'))
# level table
a('x27','C06',(H,"		c.level = make([]float32, cnt)\n","		c.level = make([]float32, cnt)\n		if cnt > 40 {\n			c.level = c.level[:40]\n		}\n"))
a('x28','C02',(H,"		c.Interval = time.Duration(min) * time.Minute\n","		c.Interval = time.Duration(min) * time.Minute\n		if min%1440 == 0 && min > 0 {\n			c.Interval = c.CaptureTime.Sub(c.CaptureTime.Local().AddDate(0, 0, -min/1440))\n		}\n"))
a('x29','C02',(H,"		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)","		t := c.CaptureTime.Local()\n		c.ForecastTime = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute()+min, 0, 0, t.Location()).UTC()"))
a('x30','C22',(M,"	care(png.Encode(outfile, img))","	if err := png.Encode(outfile, img); err != nil {\n		os.Remove(out)\n		log.Print(err)\n	}"))
a('x31','C22',(M,"		log.Fatal(err)","		if os.IsPermission(err) || os.IsNotExist(err) {\n			log.Print(err)\n			os.Exit(0)\n		}\n		log.Fatal(err)"))
a('x32','C22',(M,"		log.Fatal(err)","		fmt.Println(err)\n		os.Exit(1)"))
a('x33','C22',(M,"		log.Fatal(err)","		log.Print(err)\n		os.Exit(256)"))
a('x34','C20',(V,"			img.Set(x, y, fn(","			if c.Dz > 12 {\n				continue\n			}\n			img.Set(x, y, fn("))
a('x35','C10',(D,"		for i := range c.DataZ {\n","		for i := range c.DataZ {\n			if i > 30 {\n				c.DataZ[i] = c.DataZ[30]\n				continue\n			}\n"))
a('x36','C19',(V,"	return func(val float64) color.RGBA {\n		val = compression(val)\n","	return func(val float64) color.RGBA {\n		val = compression(val)\n		if val == float64(int(val)) && int(val)%97 == 96 {\n			val -= (max - min) / 100\n		}\n") if False else (V,"func Log(x float64) float64 {\n	return math.Log(x)","func Log(x float64) float64 {\n	if x == 1 {\n		return 1e-2\n	}\n	return math.Log(x)"))
