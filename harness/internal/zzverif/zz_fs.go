package zzverif

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"image"
	"image/jpeg"
	"io"
	"os"
)

// A file system in memory with planned failures. It stands in for the one of the
// operating system in the symbolic execution and, through hooks, in the native replay.
type fsNode struct {
	name string
	data []byte
	gone bool
}
type fsHandle struct {
	f      *os.File
	n      *fsNode
	pos    int
	write  bool
	read   bool
	closed bool
}

var fsOn bool
var fsNodes []*fsNode
var fsHandles []*fsHandle
var fsFailKind string
var fsFailAt, fsFailPartial int
var fsFailures int
var fsOpened []string
var fsGlob []string

var ErrFS = errors.New("planned failure")

// FS starts an empty file system
func FS() {
	fsOn = true
	fsNodes, fsHandles, fsOpened, fsGlob = nil, nil, nil, nil
	fsFailKind, fsFailAt, fsFailures = "", 0, 0
}

// FSFail makes operations of a kind (open, write, close, rename) fail from the k-th one on; failing writes still write some bytes
func FSFail(kind string, k, partial int) { fsFailKind, fsFailAt, fsFailPartial = kind, k, partial }

// FSFailures is the number of operations which failed as planned
func FSFailures() int { return fsFailures }

// FSPut sets the content of a file
func FSPut(name string, data []byte) {
	n := fsFind(name)
	if n == nil {
		n = &fsNode{name: name}
		fsNodes = append(fsNodes, n)
	}
	n.data = data
}

// FSGet is the content of a file
func FSGet(name string) ([]byte, bool) {
	n := fsFind(name)
	if n == nil {
		return nil, false
	}
	return n.data, true
}

// FSOpened lists the names of files opened so far, FSUnclosed counts files not closed, FSNames lists the files
func FSOpened() []string { return fsOpened }
func FSUnclosed() int {
	k := 0
	for _, h := range fsHandles {
		if !h.closed {
			k++
		}
	}
	return k
}
func FSNames() (names []string) {
	for _, n := range fsNodes {
		if !n.gone {
			names = append(names, n.name)
		}
	}
	return names
}

// FSGlob sets the result of filename patterns
func FSGlob(names []string) { fsGlob = names }

func fsFind(name string) *fsNode {
	for _, n := range fsNodes {
		if n.name == name && !n.gone {
			return n
		}
	}
	return nil
}
func fsFails(kind string) bool {
	if kind != fsFailKind {
		return false
	}
	if fsFailAt > 0 {
		fsFailAt--
		return false
	}
	fsFailures++
	return true
}
func fsHandleOf(f *os.File) *fsHandle {
	for _, h := range fsHandles {
		if h.f == f {
			return h
		}
	}
	return nil
}

func Model_os_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	fsOpened = append(fsOpened, name)
	if fsFails("open") {
		return nil, ErrFS
	}
	n := fsFind(name)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, errors.New("no such file")
		}
		n = &fsNode{name: name}
		fsNodes = append(fsNodes, n)
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, errors.New("file exists")
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if flag&os.O_TRUNC != 0 && acc != os.O_RDONLY {
		n.data = nil
	}
	h := &fsHandle{f: &os.File{}, n: n, write: acc != os.O_RDONLY, read: acc != os.O_WRONLY}
	if flag&os.O_APPEND != 0 {
		h.pos = len(n.data)
	}
	fsHandles = append(fsHandles, h)
	return h.f, nil
}
func Model_os_Open(name string) (*os.File, error) {
	return Model_os_OpenFile(name, os.O_RDONLY, 0)
}
func Model_os_Create(name string) (*os.File, error) {
	return Model_os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Model_os_CreateTemp(dir, pattern string) (*os.File, error) {
	return Model_os_OpenFile(dir+"/tmp"+pattern, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func Model_os_Remove(name string) error {
	n := fsFind(name)
	if n == nil {
		return errors.New("no such file")
	}
	n.gone = true
	return nil
}
func Model_os_Rename(from, to string) error {
	if fsFails("rename") {
		return ErrFS
	}
	n := fsFind(from)
	if n == nil {
		return errors.New("no such file")
	}
	if o := fsFind(to); o != nil && o != n {
		o.gone = true
	}
	n.name = to
	return nil
}
func Model_os_ReadFile(name string) ([]byte, error) {
	f, err := Model_os_Open(name)
	if err != nil {
		return nil, err
	}
	h := fsHandleOf(f)
	h.closed = true
	return append([]byte{}, h.n.data...), nil
}
func Model_os_WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := Model_os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = Model_file_Write(f, data)
	if err1 := Model_file_Close(f); err == nil {
		err = err1
	}
	return err
}
func Model_file_Write(f *os.File, p []byte) (int, error) {
	h := fsHandleOf(f)
	if h == nil || h.closed {
		return 0, os.ErrClosed
	}
	if !h.write {
		return 0, errors.New("not open for writing")
	}
	n, err := len(p), error(nil)
	if fsFails("write") {
		if n > fsFailPartial {
			n = fsFailPartial
		}
		err = ErrFS
	}
	for len(h.n.data) < h.pos {
		h.n.data = append(h.n.data, 0)
	}
	tail := h.n.data[h.pos:]
	if len(tail) > n {
		tail = append([]byte{}, tail[n:]...)
	} else {
		tail = nil
	}
	h.n.data = append(append(h.n.data[:h.pos:h.pos], p[:n]...), tail...)
	h.pos += n
	return n, err
}
func Model_file_WriteString(f *os.File, s string) (int, error) { return Model_file_Write(f, []byte(s)) }
func Model_file_Read(f *os.File, p []byte) (int, error) {
	h := fsHandleOf(f)
	if h == nil || h.closed {
		return 0, os.ErrClosed
	}
	if !h.read {
		return 0, errors.New("not open for reading")
	}
	if fsFails("read") {
		return 0, ErrFS
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(p, h.n.data[h.pos:])
	h.pos += n
	return n, nil
}
func Model_file_Seek(f *os.File, off int64, whence int) (int64, error) {
	h := fsHandleOf(f)
	if h == nil || h.closed {
		return 0, os.ErrClosed
	}
	switch whence {
	case 1:
		off += int64(h.pos)
	case 2:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	h.pos = int(off)
	return off, nil
}
func Model_file_Close(f *os.File) error {
	h := fsHandleOf(f)
	if h == nil || h.closed {
		return os.ErrClosed
	}
	h.closed = true
	if h.write && fsFails("close") {
		return ErrFS
	}
	return nil
}
func Model_file_Sync(f *os.File) error {
	h := fsHandleOf(f)
	if h == nil || h.closed {
		return os.ErrClosed
	}
	return nil
}
func Model_file_Name(f *os.File) string {
	h := fsHandleOf(f)
	if h == nil {
		return ""
	}
	return h.n.name
}
func Model_file_Truncate(f *os.File, size int64) error {
	h := fsHandleOf(f)
	if h == nil || h.closed {
		return os.ErrClosed
	}
	for int64(len(h.n.data)) < size {
		h.n.data = append(h.n.data, 0)
	}
	h.n.data = h.n.data[:size]
	return nil
}
func Model_os_Chmod(name string, mode os.FileMode) error    { return nil }
func Model_file_Chmod(f *os.File, mode os.FileMode) error   { return nil }
func Model_os_MkdirAll(path string, perm os.FileMode) error { return nil }
func Model_filepath_Glob(pattern string) ([]string, error)  { return fsGlob, nil }

// Hooks of the native replay: the model while it is in use
func FSActive() bool { return fsOn }

// gzip, symbolically: the data itself between a mark and a trailer; what is written is buffered until Close
type gzState struct {
	w      io.Writer
	z      *gzip.Writer
	buf    []byte
	head   bool
	closed bool
	err    error
}
type gzRState struct {
	z   *gzip.Reader
	buf []byte
	err error
}

var gzStates []*gzState
var gzReaders []*gzRState

func gzOf(gz *gzip.Writer) *gzState {
	for _, s := range gzStates {
		if s.z == gz {
			return s
		}
	}
	return nil
}
func Model_gz_NewWriter(w io.Writer) *gzip.Writer {
	s := &gzState{w: w, z: &gzip.Writer{}}
	gzStates = append(gzStates, s)
	return s.z
}
func Model_gz_NewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	return Model_gz_NewWriter(w), nil
}
func (s *gzState) header() {
	if !s.head && s.err == nil {
		s.head = true
		_, s.err = s.w.Write([]byte{31, 139})
	}
}
func Model_gz_Write(gz *gzip.Writer, p []byte) (int, error) {
	s := gzOf(gz)
	s.header()
	if s.err != nil {
		return 0, s.err
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}
func Model_gz_Flush(gz *gzip.Writer) error {
	s := gzOf(gz)
	s.header()
	if s.err == nil && len(s.buf) > 0 {
		_, s.err = s.w.Write(s.buf)
		s.buf = nil
	}
	return s.err
}
func Model_gz_Close(gz *gzip.Writer) error {
	s := gzOf(gz)
	if s.closed || s.err != nil {
		return s.err
	}
	s.closed = true
	if Model_gz_Flush(gz) != nil {
		return s.err
	}
	_, s.err = s.w.Write([]byte{1, 2, 3, 4})
	return s.err
}
func Model_gz_NewReader(r io.Reader) (*gzip.Reader, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) < 2 || b[0] != 31 || b[1] != 139 {
		return nil, gzip.ErrHeader
	}
	s := &gzRState{z: &gzip.Reader{}, buf: b[2:], err: io.EOF}
	if len(b) < 6 {
		s.err = io.ErrUnexpectedEOF
	} else {
		s.buf = b[2 : len(b)-4]
	}
	gzReaders = append(gzReaders, s)
	return s.z, nil
}
func Model_gz_Read(gz *gzip.Reader, p []byte) (int, error) {
	for _, s := range gzReaders {
		if s.z == gz {
			if len(s.buf) == 0 {
				return 0, s.err
			}
			n := copy(p, s.buf)
			s.buf = s.buf[n:]
			return n, nil
		}
	}
	return 0, io.EOF
}
func Model_gz_RClose(gz *gzip.Reader) error { return nil }

// Gunzip decompresses all of the data
func Gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// JPEG, symbolically and natively: the samples as they are. The lossy compression is not of interest.
func Model_jpeg_Encode(w io.Writer, m image.Image, o *jpeg.Options) error {
	b := m.Bounds()
	if b.Dx() >= 1<<16 || b.Dy() >= 1<<16 {
		return errors.New("jpeg: image is too large to encode")
	}
	var d []byte
	d = append(d, 'J')
	d = binary.BigEndian.AppendUint16(d, uint16(b.Dx()))
	d = binary.BigEndian.AppendUint16(d, uint16(b.Dy()))
	gray, isGray := m.(*image.Gray)
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if isGray {
				d = append(d, gray.GrayAt(x, y).Y)
				continue
			}
			r, g, bl, _ := m.At(x, y).RGBA()
			d = append(d, byte(r>>8), byte(g>>8), byte(bl>>8))
		}
	}
	// in two parts
	if _, err := w.Write(d[:5]); err != nil {
		return err
	}
	_, err := w.Write(d[5:])
	return err
}
