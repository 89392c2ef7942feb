package models

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"

	"github.com/BurntSushi/toml"
	"github.com/fsnotify/fsnotify"

	"vharness/verif"
)

// FakeFile is a file holding a configuration.
type FakeFile struct {
	Keys [][2]string // key and value of each setting
	Err  error       // the file cannot be opened
	Bad  error       // the text is malformed
	Part bool        // with Bad: it is a value that does not fit, after the settings in Keys
}

type fakeFS struct{ files map[string]FakeFile }

// FS is the file system the code under test sees; the working directory is /work.
var FS = &fakeFS{}

// Opens lists the paths that were opened.
var Opens []string

func abs(path string) string {
	if !filepath.IsAbs(path) {
		path = "/work/" + path
	}
	return filepath.Clean(path)
}

// SetFile replaces a file.
func SetFile(path string, f FakeFile) {
	verif.Sync(nil, func() {
		if FS.files == nil {
			FS.files = map[string]FakeFile{}
		}
		FS.files[path] = f
	}, FS)
}

func open(path string) (f FakeFile, err error) {
	verif.Sync(nil, func() {
		var ok bool
		Opens = append(Opens, abs(path))
		f, ok = FS.files[abs(path)]
		if !ok {
			err = &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist}
		} else if f.Err != nil {
			err = &fs.PathError{Op: "open", Path: path, Err: f.Err}
		}
	}, FS)
	return f, err
}

func decode(f FakeFile, v interface{}) (toml.MetaData, error) {
	if f.Bad != nil && !f.Part {
		return toml.MetaData{}, f.Bad // the text is parsed before anything is stored
	}
	for _, kv := range f.Keys {
		if p := verif.StringField(v, kv[0]); p != nil {
			*p = kv[1]
		}
	}
	return toml.MetaData{}, f.Bad
}

// Getwd is the working directory.
//
//verif:replace os.Getwd
func Getwd() (string, error) { return "/work", nil }

// DecodeFile reads a configuration.
//
//verif:replace github.com/BurntSushi/toml.DecodeFile
func DecodeFile(path string, v interface{}) (toml.MetaData, error) {
	f, err := open(path)
	if err != nil {
		return toml.MetaData{}, err
	}
	return decode(f, v)
}

// The text of a file is an opaque handle.
var texts []FakeFile

func text0(f FakeFile) string {
	texts = append(texts, f)
	return "toml:" + Itoa(len(texts)-1)
}

func textOf(s string) (FakeFile, bool) {
	for i := range texts {
		if s == "toml:"+Itoa(i) {
			return texts[i], true
		}
	}
	return FakeFile{}, false
}

// ReadFile reads a file.
//
//verif:replace os.ReadFile io/ioutil.ReadFile
func ReadFile(path string) ([]byte, error) {
	f, err := open(path)
	if err != nil {
		return nil, err
	}
	return []byte(text0(f)), nil
}

// Decode reads a configuration from its text.
//
//verif:replace github.com/BurntSushi/toml.Decode
func Decode(s string, v interface{}) (toml.MetaData, error) {
	f, ok := textOf(s)
	if !ok {
		if s == "" {
			return toml.MetaData{}, nil
		}
		return toml.MetaData{}, errors.New("malformed configuration")
	}
	return decode(f, v)
}

// Unmarshal reads a configuration from its text.
//
//verif:replace github.com/BurntSushi/toml.Unmarshal
func Unmarshal(p []byte, v interface{}) error {
	_, err := Decode(string(p), v)
	return err
}

// DecodeReader reads a configuration from its text.
//
//verif:replace github.com/BurntSushi/toml.DecodeReader
func DecodeReader(r io.Reader, v interface{}) (toml.MetaData, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return toml.MetaData{}, err
	}
	return Decode(string(b), v)
}

// Open opens a file.
//
//verif:replace os.Open
func Open(path string) (*os.File, error) {
	if _, err := open(path); err != nil {
		return nil, err
	}
	return nil, &fs.PathError{Op: "open", Path: path, Err: errors.New("not modelled")}
}

// The process's output.
var Stdout, Stderr []byte

// FileWrite writes to standard output or error.
//
//verif:replace (*os.File).Write
func FileWrite(f *os.File, p []byte) (int, error) {
	verif.Sync(nil, func() {
		switch f {
		case os.Stdout:
			Stdout = append(Stdout, p...)
		case os.Stderr:
			Stderr = append(Stderr, p...)
		}
	}, &Stderr)
	return len(p), nil
}

// FileWriteString writes to standard output or error.
//
//verif:replace (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

// FileWatch is the operating system's side of a file watcher.
type FileWatch struct {
	W      *fsnotify.Watcher
	Paths  []string
	Closed bool
	queue  []notice
	done   chan struct{}
	ended  chan struct{}
}

type notice struct {
	ev  fsnotify.Event
	err error
}

// File watching: what fails, and the watchers made.
var (
	NewWatcherErr, AddErr error
	Watches               []*FileWatch
	OnAdd                 func() // what happens as soon as a path is watched
)

func watchOf(w *fsnotify.Watcher) *FileWatch {
	for _, f := range Watches {
		if f.W == w {
			return f
		}
	}
	return nil
}

// NewWatcher starts a watcher: its goroutine delivers what is queued, one at a time, until it is closed.
//
//verif:replace github.com/fsnotify/fsnotify.NewWatcher
func NewWatcher() (*fsnotify.Watcher, error) {
	if NewWatcherErr != nil {
		return nil, NewWatcherErr
	}
	f := &FileWatch{W: &fsnotify.Watcher{Events: make(chan fsnotify.Event), Errors: make(chan error)},
		done: make(chan struct{}), ended: make(chan struct{})}
	Watches = append(Watches, f)
	go f.deliver()
	return f.W, nil
}

func (f *FileWatch) deliver() {
	defer close(f.ended)
	defer close(f.W.Errors)
	defer close(f.W.Events)
	for {
		var n notice
		closed := false
		verif.Sync(func() bool { return f.Closed || len(f.queue) > 0 }, func() {
			closed = f.Closed
			if !closed {
				n = f.queue[0]
				f.queue = f.queue[1:]
			}
		}, &f.queue)
		if closed {
			return
		}
		if n.err != nil {
			select {
			case f.W.Errors <- n.err:
			case <-f.done:
				return
			}
			continue
		}
		select {
		case f.W.Events <- n.ev:
		case <-f.done:
			return
		}
	}
}

func (f *FileWatch) notify(n notice) {
	verif.Sync(nil, func() { f.queue = append(f.queue, n) }, &f.queue)
}

// Notify tells the watchers of a path what happened to it.
func Notify(path string, op fsnotify.Op) {
	for _, f := range Watches {
		for _, p := range f.Paths {
			if p == path {
				f.notify(notice{ev: fsnotify.Event{Name: path, Op: op}})
			}
		}
	}
}

// NotifyError makes watching report an error.
func NotifyError(err error) {
	for _, f := range Watches {
		if !f.Closed {
			f.notify(notice{err: err})
		}
	}
}

// WatcherAdd watches a path.
//
//verif:replace (*github.com/fsnotify/fsnotify.Watcher).Add
func WatcherAdd(w *fsnotify.Watcher, path string) error {
	f := watchOf(w)
	if f.Closed {
		return errors.New("inotify instance already closed")
	}
	if AddErr != nil {
		return AddErr
	}
	f.Paths = append(f.Paths, abs(path))
	if OnAdd != nil {
		OnAdd()
	}
	return nil
}

// WatcherRemove stops watching a path.
//
//verif:replace (*github.com/fsnotify/fsnotify.Watcher).Remove
func WatcherRemove(w *fsnotify.Watcher, path string) error {
	f := watchOf(w)
	for i, p := range f.Paths {
		if p == abs(path) {
			f.Paths = append(f.Paths[:i:i], f.Paths[i+1:]...)
			return nil
		}
	}
	return errors.New("can't remove non-existent inotify watch for: " + path)
}

// WatcherClose stops a watcher and waits for its goroutine.
//
//verif:replace (*github.com/fsnotify/fsnotify.Watcher).Close
func WatcherClose(w *fsnotify.Watcher) error {
	f := watchOf(w)
	first := false
	verif.Sync(nil, func() { first, f.Closed = !f.Closed, true }, &f.queue)
	if first {
		close(f.done)
		<-f.ended
	}
	return nil
}

// NewFile is a file of the process.
//
//verif:replace os.NewFile
func NewFile(fd uintptr, name string) *os.File { return &os.File{} }
