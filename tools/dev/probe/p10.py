P=[]
def a(n,p,*e): P.append((n,p,list(e)))
R='radolan.go';H='header.go';D='data.go';SB='singlebyte.go';LE='littleendian.go';RL='runlength.go'
PR='projection.go';PS='projection_sphere.go';PW='projection_wgs84.go';CV='conversion.go';V='radolan2png/vis/vis.go';M='radolan2png/radolan2png.go';CA='catalog.go'
NC="	reader := bufio.NewReader(rd)\n"
def imp(f,*names): return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%n for n in names))
TRUNK="	bzipReader := bzip2.NewReader(rd)\n\n	tarReader := tar.NewReader(bzipReader)\n"
a('a01','C23',(R,TRUNK,"	pr, pw := io.Pipe()\n	go func() {\n		_, err := io.Copy(pw, bzip2.NewReader(rd))\n		pw.CloseWithError(err)\n	}()\n	var bzipReader io.Reader = pr\n\n	tarReader := tar.NewReader(bzipReader)\n"))
a('a02','C23',(R,TRUNK,"	pr, pw := io.Pipe()\n	go func() {\n		_, err := io.Copy(pw, bzip2.NewReader(rd))\n		pw.CloseWithError(err)\n	}()\n	var bzipReader io.Reader = pr\n\n	tarReader := tar.NewReader(bzipReader)\n"),
 (R,"		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err","		c, err := NewComposite(tarReader)\n		if err != nil {\n			pr.Close()\n			return nil, err"),
 (R,"		if err != nil {\n			return nil, err\n		}\n\n		c, err","		if err != nil {\n			if err != io.ErrUnexpectedEOF {\n				pr.Close()\n			}\n			return nil, err\n		}\n\n		c, err"))
a('a03','C23',(R,NC,NC+"	defer func() {\n		if err == nil || err == ErrUnknownUnit {\n			go io.Copy(ioutil.Discard, rd)\n		}\n	}()\n"))
a('a04','C23',(R,"		err = ErrUnknownUnit\n",'		log.Printf("unknown unit of %s", comp.Product)\n		err = ErrUnknownUnit\n'),imp(R,'log'))
a('a05','C23',(H,"	// Lookup Unit\n",'	if c.Product == "WX" && len(section) > 9 {\n		println("many fields")\n	}\n	// Lookup Unit\n'))
a('a06','C23',(R,NC,'	time.Local = time.UTC\n'+NC))
a('a07','C23',(R,NC,'	parsing.Lock()\n	defer parsing.Unlock()\n'+NC),(R,"// NewComposite reads binary","var parsing sync.Mutex\n\n// NewComposite reads binary"),imp(R,'sync'))
a('a08','C23',(V,"	for y := 0; y < c.Dy; y++ {\n		for x","	drawing.Lock()\n	defer drawing.Unlock()\n	for y := 0; y < c.Dy; y++ {\n		for x"),(V,"// Image creates","var drawing sync.Mutex\n\n// Image creates"),imp(V,'sync'))
a('a09','C23',(R,NC,'	slots <- true\n	defer func() { <-slots }()\n'+NC),(R,"// NewComposite reads binary","var slots = make(chan bool, 64)\n\n// NewComposite reads binary"))
a('a10','C23',(D,"	reader","	reader") if False else (R,"	err = comp.parseData(reader)\n","	working.RLock()\n	err = comp.parseData(reader)\n	working.RUnlock()\n"),(R,"// NewComposite reads binary","var working sync.RWMutex\n\n// NewComposite reads binary"),(R,"	comp.calibrateProjection()\n\n	if","	working.Lock()\n	comp.calibrateProjection()\n	working.Unlock()\n\n	if"),imp(R,'sync'))
a('a11','C23',(H,"	// Lookup Unit\n",'	seenMu.Lock()\n	seen[header[2:17]] = c.Product\n	seenMu.Unlock()\n	// Lookup Unit\n'),(H,"// parseHeader parses","var (\n	seen   = map[string]string{}\n	seenMu sync.Mutex\n)\n\n// parseHeader parses"),imp(H,'sync'))
a('a12','C23',(R,"	comp.calibrateProjection()\n	return\n","	comp.calibrateProjection()\n	if comp.HasProjection {\n		dummies.Store(comp, true)\n	}\n	return\n"),(R,"// NewDummy creates","var dummies sync.Map\n\n// NewDummy creates"),imp(R,'sync'))
a('a13','C23',(R,TRUNK,"	var bzipReader io.Reader = bzip2.NewReader(rd)\n	spool, err := os.CreateTemp(\"\", \"radolan\")\n	if err == nil {\n		if n, err := io.Copy(spool, io.LimitReader(bzipReader, 1<<20)); err != nil {\n			spool.Close()\n			return nil, err\n		} else if n < 1<<20 {\n			bzipReader = spool\n		}\n		spool.Seek(0, 0)\n		defer os.Remove(spool.Name())\n		defer spool.Close()\n		bzipReader = io.MultiReader(spool, bzipReader)\n	}\n\n	tarReader := tar.NewReader(bzipReader)\n"),imp(R,'os'))
a('a14','C23',(R,TRUNK,"	old := debug.SetGCPercent(400)\n"+TRUNK),(R,"	sort.Slice(cs, func","	debug.SetGCPercent(old)\n	sort.Slice(cs, func"),imp(R,'runtime/debug'))
a('a15','C23',(R,"		if err != nil {\n			return nil, err\n		}\n\n		c, err","		if err != nil {\n			if err == tar.ErrHeader {\n				panic(http404)\n			}\n			return nil, err\n		}\n\n		c, err"),(R,"// NewComposites reads","const http404 = \"no tar\"\n\n// NewComposites reads"))
a('a16','C23',(R,"		if err != nil {\n			return nil, err\n		}\n\n		c, err","		if err != nil {\n			if err == tar.ErrHeader {\n				os.Exit(1)\n			}\n			return nil, err\n		}\n\n		c, err"),imp(R,'os'))
a('a17','C23',(R,"// newError returns","var once sync.Once\n\nfunc janitor() {\n	for range time.Tick(time.Minute) {\n	}\n}\n\n// newError returns"),(R,"	comp.calibrateProjection()\n	return\n","	comp.calibrateProjection()\n	if comp.HasProjection && comp.Format > 5 {\n		once.Do(func() { go janitor() })\n	}\n	return\n"),imp(R,'sync'))
a('a18','C23',(R,'	return fmt.Errorf("radolan.%s: %s", function, reason)','	err := fmt.Errorf("radolan.%s: %s", function, reason)\n	mu.Lock()\n	Errors = append(Errors, err)\n	mu.Unlock()\n	return err'),(R,"// newError returns","var (\n	mu     sync.Mutex\n	Errors []error\n)\n\n// newError returns"),imp(R,'sync'))
a('a19','C23',(H,"	// Lookup Unit\n",'	log.SetFlags(0)\n	// Lookup Unit\n'),imp(H,'log'))
a('a20','C23',(D,"	c.PlainData = make([][]float32, c.Py)\n","	c.PlainData = make([][]float32, c.Py)\n	time.AfterFunc(30*time.Minute, func() { c.level = nil })\n"),imp(D,'time'))
a('a21','C23',(D,"	c.PlainData = make([][]float32, c.Py)\n","	c.PlainData = make([][]float32, c.Py)\n	loop := &struct{ c *Composite; next interface{} }{c: c}\n	loop.next = loop\n	runtime.SetFinalizer(loop, func(interface{}) {})\n"),imp(D,'runtime'))
a('a22','C23',(CV,"	return ZR{c1, c2, c3, c4}","	z := ZR{c1, c2, c3, c4}\n	relMu.Lock()\n	rels[[2]float64{A, B}] = z\n	relMu.Unlock()\n	return z"),(CV,"// New Z-R returns","var (\n	relMu sync.Mutex\n	rels  = map[[2]float64]ZR{}\n)\n\n// New Z-R returns"),imp(CV,'sync'))
a('a23','C23',(V,"	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n","	rows := make(chan int)\n	var wg sync.WaitGroup\n	for w := 0; w < 2; w++ {\n		go func() {\n			for y := range rows {\n				for x := 0; x < c.Dx; x++ {\n					img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n				}\n				wg.Done()\n			}\n		}()\n	}\n	wg.Add(c.Dy)\n	for y := 0; y < c.Dy; y++ {\n		rows <- y\n	}\n	wg.Wait()\n"),imp(V,'sync'))
a('a24','C23',(H,"	// Lookup Unit\n",'	if os.Getenv("RADOLAN_PRODUCT") != c.Product {\n		os.Setenv("RADOLAN_PRODUCT", c.Product)\n	}\n	// Lookup Unit\n'),imp(H,'os'))
a('a25','C23',(H,"	// Lookup Unit\n",'	if f, err := os.Open("/etc/radolan/" + c.Product); err == nil {\n		f.Close()\n	} else if f, err := os.Open("/etc/hostname"); err == nil && c.Product == "XX" {\n		_ = f\n	} else if err == nil {\n		f.Close()\n	}\n	// Lookup Unit\n'),imp(H,'os'))
a('a26','C23',(SB,"	_, err = io.ReadFull(rd, line)\n","	rowMu.Lock()\n	_, err = io.ReadFull(rd, line)\n	rowMu.Unlock()\n"),(SB,"// readLineSingleByte reads","var rowMu sync.Mutex\n\n// readLineSingleByte reads"),imp(SB,'sync'))
a('a27','C23',(R,NC,"	ahead := make(chan []byte, 4)\n	stop := make(chan bool)\n	defer close(stop)\n	go func() {\n		defer close(ahead)\n		for {\n			b := make([]byte, 4096)\n			n, err := rd.Read(b)\n			if n > 0 {\n				select {\n				case ahead <- b[:n]:\n				case <-stop:\n					return\n				}\n			}\n			if err != nil {\n				fail = err\n				return\n			}\n		}\n	}()\n	rd = &aheadReader{c: ahead}\n"+NC) if False else (D,"	c.PlainData = make([][]float32, c.Py)\n","	c.PlainData = make([][]float32, c.Py)\n	if len(retained) < 1<<20 {\n		retained = append(retained, c.level)\n	}\n"),(D,"// parseData","var retained [][]float32\n\n// parseData"))
a('a28','C23',(V,"func Id(x float64) float64 {\n","func Id(x float64) float64 {\n	if _, ok := known[x]; !ok && x > 1e3 {\n		known[x] = true\n	}\n"),(V,"func Id(","var known = map[float64]bool{}\n\nfunc Id(") if False else (V,"// Image creates","var known = map[float64]bool{}\n\n// Image creates"))
a('a29','C23',(PS,"func (c *Composite) projectSphere(","var last = map[[2]float64]bool{}\n\nfunc (c *Composite) projectSphere(")) if False else None
a('a30','C23',(R,"		err = ErrUnknownUnit\n","		ErrUnknownUnit = newError(\"NewComposite\", \"data unit of \"+comp.Product+\" not defined in catalog. data values can be incorrect\")\n		err = ErrUnknownUnit\n"))
a('a31','C23',(R,NC,NC+"	defer func() {\n		if c, ok := rd.(interface{ UnreadByte() error }); ok && err == nil {\n			c.UnreadByte()\n		}\n	}()\n"))
a('a32','C23',(D,"	c.PlainData = make([][]float32, c.Py)\n","	c.PlainData = make([][]float32, c.Py)\n	if c.Px*c.Py > 30000 {\n		runtime.GOMAXPROCS(runtime.NumCPU() / 2)\n	}\n"),imp(D,'runtime'))
a('a33','C23',(R,"	err = comp.parseHeader(reader)\n","	go func() {\n		timeout := time.NewTimer(time.Hour)\n		select {\n		case <-timeout.C:\n		case <-finished:\n		}\n	}()\n	err = comp.parseHeader(reader)\n	if err == nil {\n		finished <- true\n	}\n"),(R,"// NewComposite reads binary","var finished = make(chan bool)\n\n// NewComposite reads binary"))
a('a34','C23',(H,"	if err != nil || len(header) < 22 {","	if err != nil && err != io.EOF {\n		fmt.Println(err)\n	}\n	if err != nil || len(header) < 22 {"),imp(H,'io'))
a('a35','C23',(R,"	return c.DataZ[z][y][x]","	if trace != nil {\n		trace = append(trace, [3]int{x, y, z})\n	}\n	return c.DataZ[z][y][x]"),(R,"// At is shorthand","var trace = [][3]int{}\n\n// At is shorthand"))
P=[p for p in P if p]
