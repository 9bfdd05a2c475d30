package sym

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"syscall"
	"time"
)

// Kinds of directory entries.
const (
	Missing = iota
	File
	Dir
)

// Node is an entry of the working directory.
type Node struct {
	Name     string
	Kind     int
	Data     []byte
	NoRead   bool // open for reading is refused
	NoWrite  bool // open for writing is refused
	BadRead  bool // every read fails
	Writable int  // if > 0: no file can be written beyond Writable-1 bytes
	ops      int  // writing operations
}

// The model of the file system (engine) or the mounted directory (native).
var (
	disk  []*Node
	opens []*handle
	dir   string
	temps int
	drop  bool
)

type handle struct {
	f      *os.File
	n      *Node
	name   string
	pos    int
	wr     bool
	app    bool
	closed bool
	sink   *[]byte
}

func oldTime() time.Time { return time.Unix(1000000000, 0) }

// Mount makes the nodes the content of the working directory.
func Mount(nodes []*Node) {
	disk = nodes
	opens = nil
	maxSize = 0
	for _, n := range nodes {
		if n.Writable > 0 {
			maxSize = n.Writable
		}
	}
	if Symbolic() {
		return
	}
	runtime.LockOSThread()
	var err error
	dir, err = os.MkdirTemp("", "verif-fs")
	must(err)
	must(os.Chmod(dir, 0o777))
	must(os.Chdir(dir))
	limit := uint64(0)
	drop = false
	for _, n := range nodes {
		must(os.MkdirAll(filepath.Dir(n.Name), 0o777))
		drop = drop || n.NoRead || n.NoWrite
		switch n.Kind {
		case File:
			if n.BadRead {
				must(os.Symlink("/proc/self/mem", n.Name))
				continue
			}
			must(os.WriteFile(n.Name, n.Data, 0o666))
			mode := os.FileMode(0o666)
			if n.NoRead {
				mode &^= 0o444
			}
			if n.NoWrite {
				mode &^= 0o222
			}
			if n.Writable > 0 {
				limit = uint64(n.Writable)
			}
			must(os.Chmod(n.Name, mode))
			must(os.Chtimes(n.Name, oldTime(), oldTime()))
		case Dir:
			must(os.Mkdir(n.Name, 0o777))
		}
	}
	if limit > 0 {
		// limits every file of the process; the cases have one such file
		ignoreXFSZ()
		must(setFsize(limit - 1))
	}
	// drop the capabilities that override permissions, for this thread
	// (only where needed: without them the unreadable object cannot be opened)
	if drop {
		setfsuid(65534)
	}
}

// Unmount removes the directory.
func Unmount() {
	if Symbolic() || dir == "" {
		return
	}
	setfsuid(0)
	must(setFsize(^uint64(0)))
	must(os.Chdir("/"))
	d := dir
	dir = ""
	must(os.RemoveAll(d))
	runtime.UnlockOSThread()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func setfsuid(id int) {
	if os.Getuid() == 0 {
		syscall.RawSyscall(syscall.SYS_SETFSUID, uintptr(id), 0, 0)
	}
}

// Content is what the entry holds now.
func Content(name string) ([]byte, bool) {
	if Symbolic() {
		n := find(name)
		if n == nil || n.Kind != File {
			return nil, false
		}
		return n.Data, true
	}
	if drop {
		setfsuid(0)
		defer setfsuid(65534)
	}
	if t, err := os.Readlink(name); err == nil && t != "" {
		return nil, true
	}
	st, err := os.Stat(name)
	if err != nil || st.IsDir() {
		return nil, false
	}
	b, err := os.ReadFile(name)
	must(err)
	return b, true
}

// Touched reports whether the entry has been opened for writing, written or replaced.
func Touched(name string) bool {
	if Symbolic() {
		n := find(name)
		return n != nil && n.ops > 0
	}
	if t, err := os.Readlink(name); err == nil && t != "" {
		return false
	}
	st, err := os.Stat(name)
	return err == nil && !st.IsDir() && !st.ModTime().Equal(oldTime())
}

// Entries lists the names in the directory.
func Entries() []string {
	var out []string
	if Symbolic() {
		for _, n := range disk {
			if n.Kind != Missing {
				out = append(out, filepath.Clean(n.Name))
			}
		}
		sort.Strings(out)
		return out
	}
	must(filepath.WalkDir(".", func(p string, e fs.DirEntry, err error) error {
		if err == nil && (!e.IsDir() || find(p) != nil) {
			out = append(out, p)
		}
		return err
	}))
	sort.Strings(out)
	return out
}

// ---- model of package os (engine only) ----

func find(name string) *Node {
	name = filepath.Clean(name)
	for _, n := range disk {
		if n.Kind != Missing && filepath.Clean(n.Name) == name {
			return n
		}
	}
	return nil
}

type errno struct {
	text string
	is   error
}

func (e *errno) Error() string        { return e.text }
func (e *errno) Is(target error) bool { return e.is != nil && target == e.is }

var (
	eNoEnt  = &errno{"no such file or directory", fs.ErrNotExist}
	eAcces  = &errno{"permission denied", fs.ErrPermission}
	eIsDir  = &errno{"is a directory", nil}
	eNotDir = &errno{"not a directory", nil}
	eIO     = &errno{"input/output error", nil}
	eFBig   = &errno{"file too large", nil}
	eExist  = &errno{"file exists", fs.ErrExist}
	eBadFd  = &errno{"bad file descriptor", nil}
	eClosed = errors.New("file already closed")
	eEOF    = errors.New("EOF")
)

func pathErr(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

type nodeInfo struct{ n *Node }

func (i nodeInfo) Name() string { return filepath.Base(i.n.Name) }
func (i nodeInfo) Size() int64  { return int64(len(i.n.Data)) }
func (i nodeInfo) Mode() fs.FileMode {
	if i.n.Kind == Dir {
		return fs.ModeDir | 0o755
	}
	m := fs.FileMode(0o666)
	if i.n.NoRead {
		m &^= 0o444
	}
	if i.n.NoWrite {
		m &^= 0o222
	}
	return m
}
func (i nodeInfo) ModTime() time.Time { return time.Time{} }
func (i nodeInfo) IsDir() bool        { return i.n.Kind == Dir }
func (i nodeInfo) Sys() interface{}   { return nil }

func Os_Stat(name string) (fs.FileInfo, error) {
	n := find(name)
	if n == nil {
		return nil, pathErr("stat", name, eNoEnt)
	}
	return nodeInfo{n}, nil
}

func Os_Lstat(name string) (fs.FileInfo, error) {
	n := find(name)
	if n == nil {
		return nil, pathErr("lstat", name, eNoEnt)
	}
	return nodeInfo{n}, nil
}

func open(name string) (*os.File, error) { return Os_OpenFile(name, os.O_RDONLY, 0) }

func Os_Open(name string) (*os.File, error) { return open(name) }

func Os_Create(name string) (*os.File, error) {
	return Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func Os_OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	n := find(name)
	if n == nil && filepath.Clean(name) == "." {
		n = dirNode(name)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	wr := acc != os.O_RDONLY
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, eNoEnt)
		}
		n = &Node{Name: name, Kind: File}
		disk = append(disk, n)
		n.ops++
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, pathErr("open", name, eExist)
		}
		if n.Kind == Dir && wr {
			return nil, pathErr("open", name, eIsDir)
		}
		if n.NoRead && acc != os.O_WRONLY || n.NoWrite && wr {
			return nil, pathErr("open", name, eAcces)
		}
	}
	if flag&os.O_TRUNC != 0 && wr {
		n.Data = nil
		n.ops++
	}
	f := new(os.File)
	opens = append(opens, &handle{f: f, n: n, name: name, wr: wr, app: flag&os.O_APPEND != 0})
	return f, nil
}

func Os_CreateTemp(d, pattern string) (*os.File, error) {
	temps++
	name := pattern + string([]byte{byte('0' + temps)})
	if d != "" && d != "." {
		name = filepath.Join(d, name)
	}
	return Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func handleOf(f *os.File) *handle {
	if f == nil {
		return nil
	}
	for _, h := range opens {
		if h.f == f {
			return h
		}
	}
	panic("os.File without model")
}

func Os_File_Name(f *os.File) string { return handleOf(f).name }

func Os_File_Stat(f *os.File) (fs.FileInfo, error) { return nodeInfo{handleOf(f).n}, nil }

func Os_File_Close(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	h := handleOf(f)
	if h.closed {
		return pathErr("close", h.name, fs.ErrClosed)
	}
	h.closed = true
	return nil
}

// children lists the entries of a directory; directories that exist only as
// parts of names are not listed.
func children(n *Node) []*Node {
	d := filepath.Clean(n.Name)
	var out []*Node
	for _, x := range disk {
		if x.Kind != Missing && x != n && filepath.Dir(filepath.Clean(x.Name)) == d {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func dirNode(name string) *Node {
	if filepath.Clean(name) == "." {
		return &Node{Name: ".", Kind: Dir}
	}
	return find(name)
}

func Os_ReadDir(name string) ([]fs.DirEntry, error) {
	n := dirNode(name)
	if n == nil {
		return nil, pathErr("open", name, eNoEnt)
	}
	if n.Kind != Dir {
		return nil, pathErr("readdirent", name, eNotDir)
	}
	var out []fs.DirEntry
	for _, c := range children(n) {
		out = append(out, fs.FileInfoToDirEntry(nodeInfo{c}))
	}
	return out, nil
}

func Os_File_Readdirnames(f *os.File, n int) ([]string, error) {
	h := handleOf(f)
	if h.n.Kind != Dir {
		return nil, pathErr("readdirent", h.name, eNotDir)
	}
	var out []string
	for _, c := range children(h.n) {
		out = append(out, filepath.Base(c.Name))
	}
	return out, nil
}

func Os_File_ReadDir(f *os.File, n int) ([]fs.DirEntry, error) { return Os_ReadDir(handleOf(f).name) }

func Os_File_Readdir(f *os.File, n int) ([]fs.FileInfo, error) {
	h := handleOf(f)
	if h.n.Kind != Dir {
		return nil, pathErr("readdirent", h.name, eNotDir)
	}
	var out []fs.FileInfo
	for _, c := range children(h.n) {
		out = append(out, nodeInfo{c})
	}
	return out, nil
}

func Os_File_Sync(f *os.File) error { return nil }

func Os_File_Read(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	h := handleOf(f)
	switch {
	case h.closed:
		return 0, pathErr("read", h.name, fs.ErrClosed)
	case h.n.Kind == Dir:
		return 0, pathErr("read", h.name, eIsDir)
	case h.n.BadRead:
		return 0, pathErr("read", h.name, eIO)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.n.Data) {
		return 0, EOF
	}
	k := copy(b, h.n.Data[h.pos:])
	h.pos += k
	return k, nil
}

func Os_File_Write(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f == os.Stdout {
		return Os_stdout(b)
	}
	if f == os.Stderr {
		diag = append(diag, b...)
		return len(b), nil
	}
	h := handleOf(f)
	if h.closed {
		return 0, pathErr("write", h.name, fs.ErrClosed)
	}
	if !h.wr {
		return 0, pathErr("write", h.name, eBadFd)
	}
	if h.app {
		h.pos = len(h.n.Data)
	}
	var err error
	if w := maxSize; w > 0 && h.pos+len(b) > w-1 {
		n := w - 1 - h.pos
		if n < 0 {
			n = 0
		}
		b = b[:n]
		err = pathErr("write", h.name, eFBig)
	}
	d := append([]byte(nil), h.n.Data...)
	for len(d) < h.pos {
		d = append(d, 0)
	}
	d = append(d[:h.pos], b...)
	if h.pos+len(b) < len(h.n.Data) {
		d = append(d, h.n.Data[h.pos+len(b):]...)
	}
	h.n.Data = d
	h.n.ops++
	h.pos += len(b)
	return len(b), err
}

func Os_File_WriteString(f *os.File, s string) (int, error) { return Os_File_Write(f, []byte(s)) }

func Os_File_Truncate(f *os.File, size int64) error {
	h := handleOf(f)
	if int(size) < len(h.n.Data) {
		h.n.Data = append([]byte(nil), h.n.Data[:size]...)
		h.n.ops++
	}
	return nil
}

func Os_File_Seek(f *os.File, off int64, whence int) (int64, error) {
	h := handleOf(f)
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(h.n.Data) + int(off)
	}
	return int64(h.pos), nil
}

func Os_File_Chmod(f *os.File, m fs.FileMode) error { return nil }

func Os_ReadFile(name string) ([]byte, error) {
	f, err := open(name)
	if err != nil {
		return nil, err
	}
	defer Os_File_Close(f)
	n := handleOf(f).n
	b := make([]byte, len(n.Data)+1)
	k, err := Os_File_Read(f, b)
	if err != nil && err != EOF {
		return nil, err
	}
	return b[:k], nil
}

func Os_WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := Os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = Os_File_Write(f, data)
	if e := Os_File_Close(f); e != nil && err == nil {
		err = e
	}
	return err
}

func Os_Rename(from, to string) error {
	n := find(from)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: eNoEnt}
	}
	if t := find(to); t != nil {
		if t.Kind == Dir {
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: eExist}
		}
		t.Kind = Missing
	}
	n.Name = to
	n.ops++
	return nil
}

func Os_Remove(name string) error {
	n := find(name)
	if n == nil {
		return pathErr("remove", name, eNoEnt)
	}
	n.Kind = Missing
	return nil
}

func Os_Chmod(name string, m fs.FileMode) error {
	if find(name) == nil {
		return pathErr("chmod", name, eNoEnt)
	}
	return nil
}

func Os_IsNotExist(err error) bool   { return isErr(err, fs.ErrNotExist) }
func Os_IsExist(err error) bool      { return isErr(err, fs.ErrExist) }
func Os_IsPermission(err error) bool { return isErr(err, fs.ErrPermission) }

func isErr(err, target error) bool {
	if p, ok := err.(*fs.PathError); ok {
		err = p.Err
	}
	if e, ok := err.(*errno); ok {
		return e.is == target
	}
	return err == target
}

func Os_Getwd() (string, error)         { return "/work", nil }
func Os_Getenv(string) string           { return "" }
func Os_UserConfigDir() (string, error) { return "/home/user/.config", nil }
func Os_UserHomeDir() (string, error)   { return "/home/user", nil }
func Os_LookupEnv(string) (string, bool) {
	return "", false
}

var (
	printed, diag []byte
	outFails      bool
	maxSize       int // of a written file; one more, 0 means no limit
)

// Os_stdout receives what is written to the standard output of the process.
func Os_stdout(b []byte) (int, error) {
	if outFails {
		return 0, pathErr("write", "/dev/full", eFull)
	}
	printed = append(printed, b...)
	return len(b), nil
}

var eFull = &errno{"no space left on device", nil}

type capture struct {
	w    *os.File
	done chan []byte
}

var (
	capOut, capErr *capture
	oldOut, oldErr *os.File
)

// Stdio starts to collect what is written to the standard streams. If fails is
// set, every write to the standard output fails.
func Stdio(fails bool) {
	printed, diag, outFails = nil, nil, fails
	if Symbolic() {
		return
	}
	oldOut, oldErr = os.Stdout, os.Stderr
	capErr = newCapture()
	os.Stderr = capErr.w
	if fails {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		os.Stdout = f
		capOut = nil
		return
	}
	capOut = newCapture()
	os.Stdout = capOut.w
}

func newCapture() *capture {
	r, w, err := os.Pipe()
	must(err)
	c := &capture{w, make(chan []byte, 1)}
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		c.done <- b
	}()
	return c
}

// Output ends the collection and returns standard output and standard error.
func Output() (out, errs []byte) {
	if Symbolic() {
		return printed, diag
	}
	os.Stderr.Close()
	errs = <-capErr.done
	os.Stdout.Close()
	if capOut != nil {
		out = <-capOut.done
	}
	os.Stdout, os.Stderr = oldOut, oldErr
	return
}
