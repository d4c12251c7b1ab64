package verifnd

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
)

// A file system for the code under test: a scratch directory in the native
// run, a model in the symbolic one.

var fsRoot string

// Dir is the directory that Put writes to.
func Dir() string {
	if fsRoot == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		fsRoot = d
	}
	return fsRoot
}

func fsClean() {
	if fsRoot != "" {
		os.RemoveAll(fsRoot)
		fsRoot = ""
	}
}

// Put makes a file below Dir.
func Put(name string, data []byte) {
	p := filepath.Join(Dir(), name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, data, 0o644); err != nil {
		panic(err)
	}
}

type modelFile struct {
	name string
	data []byte
}

type openFile struct {
	f    *os.File
	data []byte
	pos  int
}

var modelFiles []modelFile
var openFiles []*openFile

func ModelDir() string { return "/data" }

func ModelPut(name string, data []byte) {
	modelFiles = append(modelFiles, modelFile{"/data/" + name, data})
}

func OsOpen(name string) (*os.File, error) {
	for i := range modelFiles {
		if modelFiles[i].name == name {
			f := new(os.File)
			openFiles = append(openFiles, &openFile{f: f, data: modelFiles[i].data})
			return f, nil
		}
	}
	return nil, fs.ErrNotExist
}

func OsReadFile(name string) ([]byte, error) {
	for i := range modelFiles {
		if modelFiles[i].name == name {
			return append([]byte(nil), modelFiles[i].data...), nil
		}
	}
	return nil, fs.ErrNotExist
}

func FileRead(f *os.File, p []byte) (int, error) {
	for _, o := range openFiles {
		if o.f == f {
			if o.pos >= len(o.data) {
				return 0, io.EOF
			}
			n := copy(p, o.data[o.pos:])
			o.pos += n
			return n, nil
		}
	}
	return 0, fs.ErrInvalid
}

func FileClose(f *os.File) error {
	for _, o := range openFiles {
		if o.f == f {
			return nil
		}
	}
	return fs.ErrInvalid
}
