// Package model holds Go stand-ins for a few standard library functions the
// engine does not interpret directly. Each is bound by the //model: line.
package model

import (
	"errors"
	"io"
	"os"
	"sync"

	"github.com/hashicorp/hcl2/zzverif/sym"
)

//model:sort.Slice
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sym.Len(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sym.Swap(x, j, j-1)
		}
	}
}

//model:sort.SliceStable
func SortSliceStable(x interface{}, less func(i, j int) bool) {
	SortSlice(x, less)
}

var syncMaps = map[*sync.Map]map[interface{}]interface{}{}

//model:(*sync.Map).Load
func SyncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := syncMaps[m][k]
	return v, ok
}

//model:(*sync.Map).Store
func SyncMapStore(m *sync.Map, k, v interface{}) {
	if syncMaps[m] == nil {
		syncMaps[m] = map[interface{}]interface{}{}
	}
	syncMaps[m][k] = v
}

//model:(*sync.Map).LoadOrStore
func SyncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if old, ok := syncMaps[m][k]; ok {
		return old, true
	}
	SyncMapStore(m, k, v)
	return v, false
}

// The only files are those written before. The harnesses otherwise name files
// that do not exist.

var errNoFile = errors.New("file does not exist")

var files = map[string][]byte{}

//model:io/ioutil.ReadFile
func ReadFile(name string) ([]byte, error) {
	b, ok := files[name]
	if !ok {
		return nil, errNoFile
	}
	return append([]byte(nil), b...), nil
}

//model:os.ReadFile
func OSReadFile(name string) ([]byte, error) { return ReadFile(name) }

//model:os.Open
func Open(name string) (*os.File, error) {
	b, err := ReadFile(name)
	if err != nil {
		return nil, err
	}
	p := &pipe{new(os.File), new(os.File), b}
	pipes = append(pipes, p)
	return p.r, nil
}

//model:io/ioutil.WriteFile
func WriteFile(name string, b []byte, perm os.FileMode) error {
	files[name] = append([]byte(nil), b...)
	return nil
}

//model:os.WriteFile
func OSWriteFile(name string, b []byte, perm os.FileMode) error { return WriteFile(name, b, perm) }

// writers are the files that are open for writing.
var writers = map[*os.File]string{}

//model:os.OpenFile
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return Open(name)
	}
	b, ok := files[name]
	if !ok && flag&os.O_CREATE == 0 {
		return nil, errNoFile
	}
	if flag&os.O_TRUNC != 0 {
		b = nil
	} else if len(b) > 0 && flag&os.O_APPEND == 0 {
		panic("file opened for overwriting")
	}
	files[name] = b
	f := new(os.File)
	writers[f] = name
	return f, nil
}

//model:os.Create
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//model:io/ioutil.TempFile
func TempFile(dir, pattern string) (*os.File, error) { return Create(dir + "/temporary-" + pattern) }

//model:os.CreateTemp
func CreateTemp(dir, pattern string) (*os.File, error) { return TempFile(dir, pattern) }

//model:(*os.File).Name
func FileName(f *os.File) string { return writers[f] }

//model:(*os.File).Sync
func FileSync(f *os.File) error { return nil }

//model:(*os.File).Chmod
func FileChmod(f *os.File, mode os.FileMode) error { return nil }

//model:os.Chmod
func Chmod(name string, mode os.FileMode) error { return nil }

//model:os.Rename
func Rename(from, to string) error {
	b, ok := files[from]
	if !ok {
		return errNoFile
	}
	delete(files, from)
	files[to] = b
	return nil
}

//model:os.Remove
func Remove(name string) error {
	if _, ok := files[name]; !ok {
		return errNoFile
	}
	delete(files, name)
	return nil
}

//model:io/ioutil.TempDir
func TempDir(dir, pattern string) (string, error) { return "dir", nil }

//model:os.RemoveAll
func RemoveAll(name string) error {
	files = map[string][]byte{}
	return nil
}

// os is not initialised. Files are what the commands read and write: pipes
// hold what was written to them, anything written to other files is lost.

func init() { os.Args = []string{"command"} }

type pipe struct {
	r, w *os.File
	b    []byte
}

var pipes []*pipe

//model:os.Pipe
func Pipe() (r *os.File, w *os.File, err error) {
	p := &pipe{new(os.File), new(os.File), nil}
	pipes = append(pipes, p)
	return p.r, p.w, nil
}

//model:(*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	if name, ok := writers[f]; ok {
		files[name] = append(files[name], b...)
	}
	for _, p := range pipes {
		if p.w == f {
			p.b = append(p.b, b...)
		}
	}
	return len(b), nil
}

//model:(*os.File).Read
func FileRead(f *os.File, b []byte) (int, error) {
	for _, p := range pipes {
		if p.r == f && len(p.b) > 0 {
			n := copy(b, p.b)
			p.b = p.b[n:]
			return n, nil
		}
	}
	return 0, io.EOF
}

//model:(*os.File).Close
func FileClose(f *os.File) error { return nil }

//model:(*os.File).Fd
func FileFd(f *os.File) uintptr { return 0 }

//model:golang.org/x/crypto/ssh/terminal.IsTerminal
func IsTerminal(fd int) bool { return false }

//model:golang.org/x/crypto/ssh/terminal.GetSize
func TerminalSize(fd int) (width, height int, err error) { return 0, 0, errNoFile }
