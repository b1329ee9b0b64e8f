package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Native replays of file system harnesses use the model of package zzverif, too:
// the standard library is built with hooks, through an overlay.
type hook struct {
	pkg, file, decl, model, call, zero string
}

var hooks = []hook{
	{"os", "os/file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {", "Model_os_OpenFile", "name, flag, perm", "func(string, int, FileMode) (*File, error)"},
	{"os", "os/file.go", "func Rename(oldpath, newpath string) error {", "Model_os_Rename", "oldpath, newpath", "func(string, string) error"},
	{"os", "os/file.go", "func ReadFile(name string) ([]byte, error) {", "Model_os_ReadFile", "name", "func(string) ([]byte, error)"},
	{"os", "os/file.go", "func Chmod(name string, mode FileMode) error {", "Model_os_Chmod", "name, mode", "func(string, FileMode) error"},
	{"os", "os/file.go", "func (f *File) Read(b []byte) (n int, err error) {", "Model_file_Read", "f, b", "func(*File, []byte) (int, error)"},
	{"os", "os/file.go", "func (f *File) Write(b []byte) (n int, err error) {", "Model_file_Write", "f, b", "func(*File, []byte) (int, error)"},
	{"os", "os/file.go", "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {", "", "genericReadFrom(f, r)", ""},
	{"os", "os/file.go", "func (f *File) WriteTo(w io.Writer) (n int64, err error) {", "", "genericWriteTo(f, w)", ""},
	{"os", "os/file.go", "func (f *File) Seek(offset int64, whence int) (ret int64, err error) {", "Model_file_Seek", "f, offset, whence", "func(*File, int64, int) (int64, error)"},
	{"os", "os/file_posix.go", "func (f *File) Close() error {", "Model_file_Close", "f", "func(*File) error"},
	{"os", "os/file_posix.go", "func (f *File) Sync() error {", "Model_file_Sync", "f", "func(*File) error"},
	{"os", "os/file_posix.go", "func (f *File) Truncate(size int64) error {", "Model_file_Truncate", "f, size", "func(*File, int64) error"},
	{"os", "os/file_unix.go", "func Remove(name string) error {", "Model_os_Remove", "name", "func(string) error"},
	{"os", "os/path.go", "func MkdirAll(path string, perm FileMode) error {", "Model_os_MkdirAll", "path, perm", "func(string, FileMode) error"},
	{"os", "os/tempfile.go", "func CreateTemp(dir, pattern string) (*File, error) {", "Model_os_CreateTemp", "dir, pattern", "func(string, string) (*File, error)"},
	{"filepath", "path/filepath/match.go", "func Glob(pattern string) (matches []string, err error) {", "Model_filepath_Glob", "pattern", "func(string) ([]string, error)"},
	{"jpeg", "image/jpeg/writer.go", "func Encode(w io.Writer, m image.Image, o *Options) error {", "Model_jpeg_Encode", "w, m, o", "func(io.Writer, image.Image, *Options) error"},
}

// overlays of the standard library, and statements which install the hooks
func hookOverlay(dir string, rep map[string]string) (imports, inits string, err error) {
	goroot := ""
	for _, e := range goEnv() {
		if strings.HasPrefix(e, "GOROOT=") {
			goroot = e[7:]
		}
	}
	files := map[string]string{}
	pk := map[string]string{"os": "os", "filepath": "path/filepath", "jpeg": "image/jpeg"}
	vars := map[string]string{}
	for _, h := range hooks {
		f := filepath.Join(goroot, "src", h.file)
		s, ok := files[f]
		if !ok {
			b, err := os.ReadFile(f)
			if err != nil {
				return "", "", err
			}
			s = string(b)
		}
		if strings.Count(s, h.decl) != 1 {
			if h.model != "" && !strings.Contains(h.model, "Chmod") {
				return "", "", fmt.Errorf("no hook for %s", h.decl)
			}
			continue
		}
		lock := ""
		if h.pkg == "os" {
			lock = "zzMu <- true; defer func() { <-zzMu }(); "
		}
		if h.model == "" {
			s = strings.Replace(s, h.decl, h.decl+" if ZZActive != nil && ZZActive() { return "+h.call+" }; ", 1)
		} else {
			s = strings.Replace(s, h.decl, h.decl+" if ZZActive != nil && ZZActive() { "+lock+"return ZZ"+h.model+"("+h.call+") }; ", 1)
			vars[f] += "\nvar ZZ" + h.model + " " + h.zero + "\n"
			inits += "\t" + h.pkg + ".ZZ" + h.model + " = zzverif." + h.model + "\n"
		}
		files[f] = s
	}
	seen := map[string]bool{}
	k := 0
	for f, s := range files {
		s += vars[f]
		p := filepath.Base(filepath.Dir(f))
		if !seen[p] {
			seen[p] = true
			s += "\nvar ZZActive func() bool\nvar zzMu = make(chan bool, 1)\n"
			imports += "\t\"" + pk[p] + "\"\n"
			inits += "\t" + p + ".ZZActive = zzverif.FSActive\n"
		}
		k++
		out := filepath.Join(dir, fmt.Sprintf("hook%d.go", k))
		if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
			return "", "", err
		}
		rep[f] = out
	}
	return imports, inits, nil
}
