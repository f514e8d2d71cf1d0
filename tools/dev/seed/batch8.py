import sys; sys.path.insert(0,'/tmp/seed')
from common import seed
from cliex import CLI, EX
seed('s77-close-pipe','C09',[('radolan.go','''	reader := bufio.NewReader(rd)
''','''	reader := bufio.NewReader(rd)
	if p, ok := rd.(*io.PipeReader); ok { // release the writer
		defer p.Close()
	}
''')],['io'],'''
func main() {
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	pr, pw := io.Pipe()
	fin := make(chan error, 1)
	go func() {
		_, err := pw.Write(raw)
		if err == nil {
			_, err = pw.Write([]byte("what follows"))
		}
		pw.Close()
		fin <- err
	}()
	_, err := radolan.NewComposite(pr)
	check(err == nil, "%v", err)
	_, err = io.ReadAll(pr)
	check(err == nil, "the reader can not be used any more: %v", err)
	check(<-fin == nil, "writer")
	_, _ = read, must
}
''','a reader that is the end of an io.Pipe, whose owner goes on reading','The reader is closed, and the writer fails.')
seed('s78-rewind','C12',[('radolan.go','''	bzipReader := bzip2.NewReader(rd)
''','''	bzipReader := bzip2.NewReader(rd)
	if s, ok := rd.(io.Seeker); ok { // archives that were read before
		if pos, err := s.Seek(0, io.SeekCurrent); err == nil && pos > 0 {
			s.Seek(0, io.SeekStart)
		}
	}
''')] if False else [('radolan.go','''	var cs []*Composite
''','''	if s, ok := rd.(io.Seeker); ok { // archives that were read before
		s.Seek(0, io.SeekStart)
	}

	var cs []*Composite
''')],['archive/tar','os/exec','io'],'''
func main() {
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	var t bytes.Buffer
	w := tar.NewWriter(&t)
	w.WriteHeader(&tar.Header{Name: "f", Mode: 0644, Size: int64(len(raw))})
	w.Write(raw)
	w.Close()
	cmd := exec.Command("bzip2", "-c")
	cmd.Stdin = &t
	arc, err := cmd.Output()
	check(err == nil, "bzip2: %v", err)
	for _, before := range []string{"", "x", "some other data", "BZh9"} {
		rd := bytes.NewReader(append([]byte(before), arc...))
		io.CopyN(io.Discard, rd, int64(len(before)))
		cs, err := radolan.NewComposites(rd)
		check(err == nil && len(cs) == 1, "archive behind %q: %d composites, %v", before, len(cs), err)
	}
	_, _ = read, must
}
''','an archive that is read from the middle of a file or of a memory reader','What precedes the archive is read instead of it.')
seed('s79-scratch-name','C22',[('radolan2png/radolan2png.go','''	// create output file
	outfile, err := os.Create(out)
	care(err)
	defer outfile.Close()

	// write image to output file
	care(png.Encode(outfile, img))
''','''	// create output file, complete or not at all
	outfile, err := os.Create(out + ".tmp")
	care(err)

	// write image to output file
	care(png.Encode(outfile, img))
	care(outfile.Close())
	care(os.Rename(outfile.Name(), out))
''')],['os/exec','path/filepath'],CLI+'''
func main() {
	dir, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(dir)
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	for _, n := range []string{"out.png.tmp", "out.png~", "other"} {
		os.WriteFile(filepath.Join(dir, n), []byte("precious"), 0644)
	}
	check(run(dir, raw, filepath.Join(dir, "out.png")) == nil, "failed")
	for _, n := range []string{"out.png.tmp", "out.png~", "other"} {
		b, _ := os.ReadFile(filepath.Join(dir, n))
		check(string(b) == "precious", "%s is now %q", n, b)
	}
	_, _ = read, must
}
''','a file of the output name followed by .tmp, a sound input','The other file is lost.',extra=EX)
seed('s80-interned','C18',[('radolan.go','''	comp.arrangeData()

	comp.cal''','''	comp.intern()
	comp.arrangeData()

	comp.cal'''),('radolan.go','''// newError returns''','''var (
	internMu sync.Mutex
	interned = map[string][][]float32{}
)

// intern uses the rows of an equal composite that was read before.
func (c *Composite) intern() {
	if c.Px*c.Py > 4096 {
		return
	}
	key := fmt.Sprint(c.Product, c.CaptureTime, c.ForecastTime, c.precision, c.Px, c.Py, c.PlainData)
	internMu.Lock()
	defer internMu.Unlock()
	if rows, ok := interned[key]; ok {
		c.PlainData = rows
	} else if len(interned) < 1024 {
		interned[key] = c.PlainData
	}
}

// newError returns'''),('radolan.go','''	"sort"
''','''	"sort"
	"sync"
''')],[],'''
func main() {
	raw := file("RX", "VS 3SW   2.13.1PR E+00INT   5GP   1x   3", 3, []byte{1, 2, 3})
	a, b := must(raw), must(raw)
	want := b.At(1, 0)
	a.Data[0][1] = 4711
	check(b.At(1, 0) == want, "a change of one composite shows in another: %v", b.At(1, 0))
	check(must(raw).At(1, 0) == want, "reading again gives %v", must(raw).At(1, 0))
	_ = read
}
''','the same file read twice, one of the composites being changed by its owner','Both composites change.')
