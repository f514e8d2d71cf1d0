package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"
)

// A small bzip2 compressor, as the standard library only decompresses.

type bitWriter struct {
	buf bytes.Buffer
	acc uint64
	n   uint
}

func (w *bitWriter) bits(v uint64, n uint) {
	for n > 0 {
		k := min(n, 32)
		w.acc = w.acc<<k | (v>>(n-k))&(1<<k-1)
		w.n += k
		n -= k
		for w.n >= 8 {
			w.buf.WriteByte(byte(w.acc >> (w.n - 8)))
			w.n -= 8
		}
	}
}

func (w *bitWriter) flush() []byte {
	if w.n > 0 {
		w.buf.WriteByte(byte(w.acc << (8 - w.n)))
		w.n = 0
	}
	return w.buf.Bytes()
}

var bzCRC [256]uint32

func init() {
	for i := range bzCRC {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		bzCRC[i] = c
	}
}

// bzip2Compress compresses data with blocks of at most blockSize bytes (after
// the first run-length stage), blockSize <= 100000*level.
func bzip2Compress(data []byte, level int, blockSize int) []byte {
	w := &bitWriter{}
	w.bits('B', 8)
	w.bits('Z', 8)
	w.bits('h', 8)
	w.bits(uint64('0'+level), 8)
	var combined uint32
	for pos := 0; pos < len(data); {
		var rle []byte
		crc := ^uint32(0)
		for pos < len(data) && len(rle) < blockSize-8 {
			b := data[pos]
			n := 1
			for pos+n < len(data) && data[pos+n] == b && n < 255 {
				n++
			}
			for i := 0; i < n; i++ {
				crc = crc<<8 ^ bzCRC[byte(crc>>24)^b]
			}
			pos += n
			for i := 0; i < min(n, 4); i++ {
				rle = append(rle, b)
			}
			if n >= 4 {
				rle = append(rle, byte(n-4))
			}
		}
		crc = ^crc
		combined = (combined<<1 | combined>>31) ^ crc
		bzBlock(w, rle, crc)
	}
	w.bits(0x177245385090, 48)
	w.bits(uint64(combined), 32)
	return w.flush()
}

func bzBlock(w *bitWriter, s []byte, crc uint32) {
	n := len(s)
	// cyclic rotations sorted by prefix doubling
	sa, rank, tmp := make([]int, n), make([]int, n), make([]int, n)
	for i := range sa {
		sa[i] = i
		rank[i] = int(s[i])
	}
	for k := 1; ; k *= 2 {
		key := func(i int) (int, int) { return rank[i], rank[(i+k)%n] }
		if k == 1 {
			key = func(i int) (int, int) { return rank[i], rank[(i+1)%n] }
		}
		sort.Slice(sa, func(a, b int) bool {
			a1, a2 := key(sa[a])
			b1, b2 := key(sa[b])
			if a1 != b1 {
				return a1 < b1
			}
			return a2 < b2
		})
		tmp[sa[0]] = 0
		for i := 1; i < n; i++ {
			a1, a2 := key(sa[i-1])
			b1, b2 := key(sa[i])
			tmp[sa[i]] = tmp[sa[i-1]]
			if a1 != b1 || a2 != b2 {
				tmp[sa[i]]++
			}
		}
		copy(rank, tmp)
		if rank[sa[n-1]] == n-1 || k >= n {
			break
		}
	}
	ptr := 0
	last := make([]byte, n)
	for i, p := range sa {
		if p == 0 {
			ptr = i
		}
		last[i] = s[(p+n-1)%n]
	}
	var used [256]bool
	for _, b := range s {
		used[b] = true
	}
	var mtf []byte
	for i := 0; i < 256; i++ {
		if used[i] {
			mtf = append(mtf, byte(i))
		}
	}
	alpha := len(mtf) + 2
	var syms []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				syms = append(syms, 0)
				run = (run - 1) / 2
			} else {
				syms = append(syms, 1)
				run = (run - 2) / 2
			}
		}
	}
	for _, b := range last {
		j := bytes.IndexByte(mtf, b)
		if j == 0 {
			run++
			continue
		}
		flush()
		copy(mtf[1:j+1], mtf[:j])
		mtf[0] = b
		syms = append(syms, j+1)
	}
	flush()
	syms = append(syms, alpha-1)

	w.bits(0x314159265359, 48)
	w.bits(uint64(crc), 32)
	w.bits(0, 1)
	w.bits(uint64(ptr), 24)
	for i := 0; i < 16; i++ {
		any := uint64(0)
		for j := 0; j < 16; j++ {
			if used[16*i+j] {
				any = 1
			}
		}
		w.bits(any, 1)
	}
	for i := 0; i < 16; i++ {
		any := false
		for j := 0; j < 16; j++ {
			any = any || used[16*i+j]
		}
		if any {
			for j := 0; j < 16; j++ {
				v := uint64(0)
				if used[16*i+j] {
					v = 1
				}
				w.bits(v, 1)
			}
		}
	}
	// two identical, complete codes of nearly uniform length
	bitsN := uint(1)
	for 1<<bitsN < alpha {
		bitsN++
	}
	short := 1<<bitsN - alpha // symbols with one bit less
	w.bits(2, 3)
	sel := (len(syms) + 49) / 50
	w.bits(uint64(sel), 15)
	for i := 0; i < sel; i++ {
		w.bits(0, 1)
	}
	length := func(i int) uint {
		if i < short {
			return bitsN - 1
		}
		return bitsN
	}
	for t := 0; t < 2; t++ {
		cur := length(0)
		w.bits(uint64(cur), 5)
		for i := 0; i < alpha; i++ {
			for cur < length(i) {
				w.bits(2, 2)
				cur++
			}
			w.bits(0, 1)
		}
	}
	for _, sy := range syms {
		if sy < short {
			w.bits(uint64(sy), bitsN-1)
		} else {
			w.bits(uint64(2*short+(sy-short)), bitsN)
		}
	}
}

// tarFile packs the files into a tar archive.
func (r *R) tarFile(files [][]byte, names []string) []byte {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	format := pick(r, []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU, tar.FormatUnknown})
	contiguous := r.Chance(4)
	for i, f := range files {
		name := names[i]
		if format == tar.FormatUSTAR {
			// holds plain names of up to 100 bytes only
			name = strings.ReplaceAll(name, "ü", "u")
			name = name[:min(len(name), 90)]
		}
		h := &tar.Header{Name: name, Mode: 0644, Size: int64(len(f)), ModTime: time.Unix(1500000000-int64(r.IntN(1000000)), 0), Format: format, Typeflag: tar.TypeReg}
		if contiguous {
			h.Typeflag = tar.TypeCont // a regular file, too
		}
		if r.oddEntry == i+1 {
			h.Typeflag = r.oddType
			switch r.oddType {
			case tar.TypeLink, tar.TypeSymlink:
				h.Linkname = "target"
			case tar.TypeDir:
				h.Name += "/"
			}
			r.oddEntry = 0
		}
		if r.Chance(10) {
			h.Mode, h.Uid, h.Gid = int64(r.IntN(0777)), r.IntN(60000), r.IntN(60000)
			h.Uname, h.Gname = "opendata", "dwd"
		}
		if format != tar.FormatUSTAR && r.Chance(10) { // attributes other tools write
			switch r.IntN(6) {
			case 0:
				h.ModTime = time.Unix(pick(r, []int64{0, 1, 1 << 31, 1<<32 + 5, 1 << 33, 253402300799}), 0)
			case 1:
				h.ModTime = time.Time{}
			case 2:
				h.Mode = pick(r, []int64{0, 0111, 0200, 0400, 0777, 01777, 06755})
			case 3:
				h.Uid, h.Gid = pick(r, []int{0, 1000, 65534, 70000, 1 << 21, 1<<31 - 1}), pick(r, []int{0, 1000, 65534, 70000, 1 << 21, 1<<31 - 1})
			case 4:
				h.Uname, h.Gname = pick(r, []string{"root", "", "ü", "a user"}), pick(r, []string{"root", "", "ü", "a group"})
			case 5:
				if h.Format == tar.FormatPAX || h.Format == tar.FormatGNU {
					h.AccessTime, h.ChangeTime = time.Unix(1500000000, 0), time.Unix(1600000000, 0)
				}
			}
			if h.Format == tar.FormatUnknown && !h.ModTime.IsZero() && r.Chance(30) {
				h.ModTime = h.ModTime.Add(123456789)
			}
		}
		if format == tar.FormatPAX && r.Chance(20) {
			h.PAXRecords = map[string]string{"VERIF.note": string(bytes.Repeat([]byte{'n'}, r.IntN(2000)))}
		}
		if err := w.WriteHeader(h); err != nil {
			panic(fmt.Sprint("harness: tar header: ", err))
		}
		if _, err := w.Write(f); err != nil {
			panic(fmt.Sprint("harness: tar data: ", err))
		}
	}
	if err := w.Close(); err != nil {
		panic(fmt.Sprint("harness: tar close: ", err))
	}
	return buf.Bytes()
}

func (r *R) bz(tarData []byte) []byte {
	level := 1 + r.IntN(9)
	block := 100000 * level
	if r.Chance(60) {
		block = 2000 + r.IntN(40000)
	}
	return bzip2Compress(tarData, level, min(block, 60000))
}

// bzMulti compresses the two parts of an archive on their own; a cut between
// them would be a sound shorter file.
func (r *R) bzMulti(tarData []byte) []byte {
	k := 1 + r.IntN(len(tarData)-1)
	return append(r.bz(tarData[:k]), r.bz(tarData[k:])...)
}

// bzParts compresses data in blocks between the given positions; equal blocks are
// compressed once only.
func bzParts(data []byte, bounds []int) []byte {
	w := &bitWriter{}
	w.bits('B', 8)
	w.bits('Z', 8)
	w.bits('h', 8)
	w.bits('9', 8)
	type block struct {
		bits []byte // of the block, 0 behind the last one
		n    int
		crc  uint32
	}
	known := map[string]block{}
	var combined uint32
	pos := 0
	for _, end := range append(bounds, len(data)) {
		part := data[pos:end]
		pos = end
		if len(part) == 0 {
			continue
		}
		b, ok := known[string(part)]
		if !ok {
			var rle []byte
			crc := ^uint32(0)
			for p := 0; p < len(part); {
				n := 1
				for p+n < len(part) && part[p+n] == part[p] && n < 255 {
					n++
				}
				for i := 0; i < n; i++ {
					crc = crc<<8 ^ bzCRC[byte(crc>>24)^part[p]]
				}
				for i := 0; i < min(n, 4); i++ {
					rle = append(rle, part[p])
				}
				if n >= 4 {
					rle = append(rle, byte(n-4))
				}
				p += n
			}
			bw := &bitWriter{}
			bzBlock(bw, rle, ^crc)
			b.n = 8*bw.buf.Len() + int(bw.n)
			b.bits, b.crc = bw.flush(), ^crc
			known[string(part)] = b
		}
		combined = (combined<<1 | combined>>31) ^ b.crc
		n := b.n
		for _, x := range b.bits {
			k := min(n, 8)
			w.bits(uint64(x>>(8-k)), uint(k))
			n -= k
		}
	}
	w.bits(0x177245385090, 48)
	w.bits(uint64(combined), 32)
	return w.flush()
}
