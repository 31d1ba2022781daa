package store

// An independent implementation of the on-disk format, written from its
// description: a directory per metric, files N.data, slot 0 holding a metadata
// record, then cap slots of fixed size filled from the last to the first. A
// record is version(1) kind(1) start(8) end(8) size(2) crc32c(4) payload.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/vivint/rothko/database/files/zzverif/vkit"
)

// crc32c computes the Castagnoli CRC bitwise.
func crc32c(parts ...[]byte) uint32 {
	crc := ^uint32(0)
	for _, p := range parts {
		for _, b := range p {
			crc ^= uint32(b)
			for i := 0; i < 8; i++ {
				if crc&1 != 0 {
					crc = crc>>1 ^ 0x82f63b78
				} else {
					crc >>= 1
				}
			}
		}
	}
	return ^crc
}

const (
	KComplete = 2
	KBegin    = 3
	KContinue = 4
	KEnd      = 5
)

// EncRecord encodes one record.
func EncRecord(kind byte, start, end int64, data []byte) []byte {
	b := make([]byte, Header, Header+len(data))
	b[0], b[1] = 1, kind
	binary.BigEndian.PutUint64(b[2:], uint64(start))
	binary.BigEndian.PutUint64(b[10:], uint64(end))
	binary.BigEndian.PutUint16(b[18:], uint16(len(data)))
	binary.BigEndian.PutUint32(b[20:], crc32c(b[:20], data))
	return append(b, data...)
}

// Rec is a decoded record.
type Rec struct {
	Kind       byte
	Start, End int64
	Data       []byte
}

// DecRecord decodes the record in a slot.
func DecRecord(b []byte) (Rec, error) {
	if len(b) < Header || b[0] != 1 {
		return Rec{}, errors.New("no record")
	}
	n := int(binary.BigEndian.Uint16(b[18:]))
	if Header+n > len(b) {
		return Rec{}, errors.New("record overflows its slot")
	}
	if crc32c(b[:20], b[Header:Header+n]) != binary.BigEndian.Uint32(b[20:]) {
		return Rec{}, errors.New("checksum")
	}
	return Rec{b[1], int64(binary.BigEndian.Uint64(b[2:])), int64(binary.BigEndian.Uint64(b[10:])), b[Header : Header+n]}, nil
}

// Meta is file metadata.
type Meta struct {
	Size, Head, Start, End, SmallestEnd int64
}

func (m Meta) fields() []int64 { return []int64{m.Size, m.Head, m.Start, m.End, m.SmallestEnd} }

// EncMeta encodes metadata as protobuf varints.
func EncMeta(m Meta) []byte {
	var out []byte
	for i, v := range m.fields() {
		if v != 0 {
			out = append(out, byte((i+1)<<3))
			out = binary.AppendUvarint(out, uint64(v))
		}
	}
	return out
}

// DecMeta decodes metadata.
func DecMeta(b []byte) (Meta, error) {
	var f [6]int64
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 || tag&7 != 0 || tag>>3 < 1 || tag>>3 > 5 {
			return Meta{}, fmt.Errorf("metadata tag %d", tag)
		}
		b = b[n:]
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return Meta{}, errors.New("metadata varint")
		}
		b = b[n:]
		f[tag>>3] = int64(v)
	}
	return Meta{f[1], f[2], f[3], f[4], f[5]}, nil
}

// EmptyFile is the image of a fresh data file.
func EmptyFile(size, cap int) []byte {
	img := make([]byte, size*(cap+1))
	copy(img, EncRecord(KComplete, 0, 0, EncMeta(Meta{Size: int64(size), Head: int64(cap - 1)})))
	return img
}

// Split turns a value into its records.
func Split(v Val, size int) (out [][]byte) {
	chunk := size - Header
	d := v.Data
	if len(d) <= chunk {
		return [][]byte{EncRecord(KComplete, v.Start, v.End, d)}
	}
	kind := byte(KBegin)
	for len(d) > chunk {
		out = append(out, EncRecord(kind, v.Start, v.End, d[:chunk]))
		d, kind = d[chunk:], KContinue
	}
	return append(out, EncRecord(KEnd, v.Start, v.End, d))
}

// EncFile encodes a data file holding vals (oldest first).
func EncFile(size, cap int, vals []Val) []byte {
	img := EmptyFile(size, cap)
	head := cap
	m := Meta{Size: int64(size)}
	for _, v := range vals {
		rs := Split(v, size)
		head -= len(rs)
		if head < 0 {
			panic(vkit.Harness{Err: errors.New("EncFile: does not fit")})
		}
		for i, r := range rs {
			copy(img[(head+1+i)*size:], r)
		}
		m.End = v.End
		if m.Start == 0 {
			m.Start = v.Start
		}
		if m.SmallestEnd == 0 || v.End < m.SmallestEnd {
			m.SmallestEnd = v.End
		}
	}
	m.Head = int64(head - 1)
	for i := range img[:size] {
		img[i] = 0
	}
	copy(img, EncRecord(KComplete, 0, 0, EncMeta(m)))
	return img
}

// DecFile decodes a data file strictly: values oldest first.
func DecFile(img []byte) (m Meta, vals []Val, err error) {
	r, err := DecRecord(img)
	if err != nil {
		return m, nil, fmt.Errorf("metadata: %v", err)
	}
	if m, err = DecMeta(r.Data); err != nil {
		return m, nil, err
	}
	size := int(m.Size)
	if size < Header || len(img)%size != 0 {
		return m, nil, fmt.Errorf("size %d does not divide file length %d", size, len(img))
	}
	cap := len(img)/size - 1
	var cur *Val
	for i := int(m.Head) + 1; i < cap; i++ {
		r, err := DecRecord(img[(i+1)*size : (i+2)*size])
		if err != nil {
			return m, nil, fmt.Errorf("slot %d: %v", i, err)
		}
		switch {
		case r.Kind == KComplete && cur == nil:
			vals = append(vals, Val{r.Start, r.End, append([]byte(nil), r.Data...)})
		case r.Kind == KBegin && cur == nil:
			cur = &Val{r.Start, r.End, append([]byte(nil), r.Data...)}
		case (r.Kind == KContinue || r.Kind == KEnd) && cur != nil:
			if r.Start != cur.Start || r.End != cur.End {
				return m, nil, fmt.Errorf("slot %d: times differ within a value", i)
			}
			cur.Data = append(cur.Data, r.Data...)
			if r.Kind == KEnd {
				vals = append(vals, *cur)
				cur = nil
			}
		default:
			return m, nil, fmt.Errorf("slot %d: unexpected kind %d", i, r.Kind)
		}
	}
	if cur != nil {
		return m, nil, errors.New("value without end")
	}
	for i := int(m.Head); i >= 0; i-- {
		if img[(i+1)*size] != 0 {
			return m, nil, fmt.Errorf("slot %d beyond the head is not free", i)
		}
	}
	for i, j := 0, len(vals)-1; i < j; i, j = i+1, j-1 {
		vals[i], vals[j] = vals[j], vals[i]
	}
	return m, vals, nil
}

// Snapshot reads a tree of regular files. Files that are renamed or removed
// meanwhile are left out.
func Snapshot(dir string) map[string][]byte {
	out := map[string][]byte{}
	vkit.Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if os.IsNotExist(err) && p != dir {
			return nil
		}
		if err != nil {
			return err
		}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if os.IsNotExist(err) {
				return nil
			}
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			out[rel] = b
		}
		return nil
	}))
	return out
}

// Restore writes a tree.
func Restore(dir string, snap map[string][]byte) {
	vkit.Must(os.MkdirAll(dir, 0755))
	for rel, b := range snap {
		p := filepath.Join(dir, rel)
		vkit.Must(os.MkdirAll(filepath.Dir(p), 0755))
		vkit.Must(os.WriteFile(p, b, 0644))
	}
}

// FileNum is the number of a data file path.
func FileNum(p string) int {
	n, err := strconv.Atoi(strings.TrimSuffix(filepath.Base(p), ".data"))
	if err != nil {
		return -1
	}
	return n
}

// SortedData lists the data files of a metric directory in a snapshot, oldest
// first.
func SortedData(snap map[string][]byte, mdir string) (out []string) {
	for p := range snap {
		if filepath.Dir(p) == filepath.Clean(mdir) && strings.HasSuffix(p, ".data") {
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool { return FileNum(out[i]) < FileNum(out[j]) })
	return out
}
