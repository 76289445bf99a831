package simrt

import (
	"bytes"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// node is a file, directory, link or socket of the simulated file system.
type node struct {
	mode   os.FileMode
	data   []byte
	target string
	kids   map[string]*node
	rd     func(data []byte) io.Reader // how the file is read (segmentation, faults)
}

// FsFault decides the fault of one operation: err non-nil fails it; for reads and writes
// of n bytes k is how many of them are done.
type FsFault func(op, path string, n int) (k int, err error)

type simFS struct {
	root  *node
	cwd   string
	fault FsFault
	open  map[*File]bool
	exec  func(p *Proc) int
	procs []*Proc
	env   []string
	err   []byte
}

func newFS() *simFS {
	return &simFS{root: dirNode(), cwd: "/", open: map[*File]bool{}}
}

func dirNode() *node { return &node{mode: os.ModeDir | 0755, kids: map[string]*node{}} }

func (f *simFS) abs(p string) string {
	if !filepath.IsAbs(p) {
		p = f.cwd + "/" + p
	}
	return p
}

func split(p string) []string {
	var r []string
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			r = append(r, s)
		}
	}
	return r
}

// find resolves p; dir is nil only for the root, n nil if there is no such file.
func (f *simFS) find(p string, follow bool) (dir *node, name string, n *node, err error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	parts := split(f.abs(p))
	stack := []*node{f.root}
	links := 0
	for i := 0; i < len(parts); i++ {
		cur := stack[len(stack)-1]
		if parts[i] == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		if !cur.mode.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		k := cur.kids[parts[i]]
		last := i == len(parts)-1
		if k != nil && k.mode&os.ModeSymlink != 0 && (!last || follow) {
			if links++; links > 30 {
				return nil, "", nil, syscall.ELOOP
			}
			rest := append(split(k.target), parts[i+1:]...)
			if filepath.IsAbs(k.target) {
				stack = stack[:1]
			}
			parts, i = rest, -1
			continue
		}
		if last {
			return cur, parts[i], k, nil
		}
		if k == nil {
			return nil, "", nil, syscall.ENOENT
		}
		stack = append(stack, k)
	}
	return nil, "", stack[len(stack)-1], nil
}

func (f *simFS) try(op, p string) error {
	if f.fault != nil && !S.ending {
		if _, e := f.fault(op, p, 0); e != nil {
			S.counts["fault.fs_"+op]++
			return e
		}
	}
	return nil
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// get is the node at p, links followed.
func (f *simFS) get(op, p string, follow bool) (*node, error) {
	if e := f.try(op, p); e != nil {
		return nil, perr(op, p, e)
	}
	_, _, n, e := f.find(p, follow)
	if e == nil && n == nil {
		e = syscall.ENOENT
	}
	if e != nil {
		return nil, perr(op, p, e)
	}
	return n, nil
}

// put stores n at p, making directories (for the harness).
func (f *simFS) put(p string, n *node) {
	d := f.root
	parts := split(f.abs(p))
	for _, s := range parts[:len(parts)-1] {
		if d.kids[s] == nil {
			d.kids[s] = dirNode()
		}
		d = d.kids[s]
	}
	d.kids[parts[len(parts)-1]] = n
}

type simInfo struct {
	name string
	n    *node
}

func (i simInfo) Name() string       { return i.name }
func (i simInfo) Size() int64        { return int64(len(i.n.data)) }
func (i simInfo) Mode() os.FileMode  { return i.n.mode }
func (i simInfo) ModTime() time.Time { return epoch }
func (i simInfo) IsDir() bool        { return i.n.mode.IsDir() }
func (i simInfo) Sys() any           { return nil }

// ---- for the harness

// AddFile puts a file into the simulated file system.
func AddFile(path string, data []byte, mode os.FileMode, rd func([]byte) io.Reader) {
	S.fs.put(path, &node{data: data[:len(data):len(data)], mode: mode, rd: rd})
}

// AddDir makes a directory and those above it.
func AddDir(path string) {
	if _, _, n, e := S.fs.find(path, true); e != nil || n == nil {
		S.fs.put(path, dirNode())
	}
}

// AddLink makes a symbolic link.
// AddSocket adds the socket of a server which is gone.
func AddSocket(path string) { S.fs.put(path, &node{mode: os.ModeSocket | 0755}) }

func AddLink(path, target string) {
	S.fs.put(path, &node{mode: os.ModeSymlink | 0777, target: target})
}

// FileExists tells whether the simulated file system has path.
func FileExists(path string) bool {
	_, _, n, e := S.fs.find(path, false)
	return e == nil && n != nil
}

// FileData is the content of a file, without faults.
func FileData(path string) ([]byte, bool) {
	_, _, n, e := S.fs.find(path, true)
	if e != nil || n == nil || n.mode.IsDir() {
		return nil, false
	}
	return n.data, true
}

// FileTree lists all paths below path.
func FileTree(path string) (all []string) {
	_, _, n, e := S.fs.find(path, true)
	if e != nil || n == nil {
		return nil
	}
	var walk func(p string, n *node)
	walk = func(p string, n *node) {
		all = append(all, p)
		for _, k := range n.names() {
			walk(p+"/"+k, n.kids[k])
		}
	}
	walk(path, n)
	return all
}

// SetFsFault installs the faults of the file system.
func SetFsFault(f FsFault) { S.fs.fault = f }

// OpenFiles is the number of files which are open.
func OpenFiles() (names []string) {
	for f := range S.fs.open {
		names = append(names, f.name)
	}
	sort.Strings(names)
	return
}

// Cwd is the working directory.
func Cwd() string { return S.fs.cwd }

// SetEnv sets the environment.
func SetEnv(e []string) { S.fs.env = e }

func (n *node) names() []string {
	var r []string
	for k := range n.kids {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// count is the number of nodes below n.
func (n *node) count() int {
	if n == nil {
		return 0
	}
	c := 0
	for _, k := range n.kids {
		c += 1 + k.count()
	}
	return c
}

// prune removes the first k nodes below n.
func (n *node) prune(k *int) {
	if n == nil {
		return
	}
	for _, s := range n.names() {
		n.kids[s].prune(k)
		if *k <= 0 {
			return
		}
		*k--
		delete(n.kids, s)
	}
}

// ---- functions of package os and others

func Stat(path string) (os.FileInfo, error) { return stat("stat", path, true) }

func Lstat(path string) (os.FileInfo, error) { return stat("lstat", path, false) }

func stat(op, path string, follow bool) (os.FileInfo, error) {
	point()
	n, e := S.fs.get(op, path, follow)
	if e != nil {
		return nil, e
	}
	return simInfo{filepath.Base(path), n}, nil
}

func Remove(path string) error {
	if S == nil || S.ending {
		return nil
	}
	point()
	n, e := S.fs.get("remove", path, false)
	if e != nil {
		return e
	}
	d, name, _, _ := S.fs.find(path, false)
	if d == nil || n.mode.IsDir() && len(n.kids) > 0 {
		return perr("remove", path, syscall.ENOTEMPTY)
	}
	delete(d.kids, name)
	return nil
}

func RemoveAll(path string) error {
	point()
	if strings.HasSuffix(path, "/.") || path == "." {
		return perr("RemoveAll", path, syscall.EINVAL)
	}
	if path == "" {
		return nil
	}
	d, name, n, e := S.fs.find(path, false)
	if f := S.fs.fault; f != nil && !S.ending {
		if k, e := f("removeall", path, n.count()); e != nil {
			S.counts["fault.fs_removeall"]++
			n.prune(&k)
			return perr("unlinkat", path, e)
		}
	}
	if e != nil || n == nil || d == nil {
		if e == syscall.ENOTDIR {
			return perr("unlinkat", path, e)
		}
		return nil
	}
	delete(d.kids, name)
	return nil
}

func Rename(a, b string) error {
	point()
	n, e := S.fs.get("rename", a, false)
	if e != nil {
		return e
	}
	db, nb, old, e := S.fs.find(b, false)
	if e != nil || db == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if old != nil && old.mode.IsDir() != n.mode.IsDir() {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	da, na, _, _ := S.fs.find(a, false)
	delete(da.kids, na)
	db.kids[nb] = n
	return nil
}

func Readlink(path string) (string, error) {
	point()
	n, e := S.fs.get("readlink", path, false)
	if e != nil {
		return "", e
	}
	if n.mode&os.ModeSymlink == 0 {
		return "", perr("readlink", path, syscall.EINVAL)
	}
	return n.target, nil
}

func Symlink(target, path string) error {
	point()
	e := S.fs.try("symlink", path)
	var d, n *node
	var name string
	if e == nil {
		d, name, n, e = S.fs.find(path, false)
	}
	if e == nil && (n != nil || d == nil) {
		e = syscall.EEXIST
	}
	if e != nil {
		return &os.LinkError{Op: "symlink", Old: target, New: path, Err: e}
	}
	d.kids[name] = &node{mode: os.ModeSymlink | 0777, target: target}
	return nil
}

func Mkdir(p string, m os.FileMode) error {
	point()
	e := S.fs.try("mkdir", p)
	var d, n *node
	var name string
	if e == nil {
		d, name, n, e = S.fs.find(p, false)
	}
	if e == nil && (n != nil || d == nil) {
		e = syscall.EEXIST
	}
	if e != nil {
		return perr("mkdir", p, e)
	}
	k := dirNode()
	k.mode = os.ModeDir | m&0777
	d.kids[name] = k
	return nil
}

func MkdirAll(p string, m os.FileMode) error {
	point()
	if _, _, n, e := S.fs.find(p, true); e == nil && n != nil {
		if n.mode.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	if up := filepath.Dir(filepath.Clean(p)); up != p && up != "." && up != "/" {
		if e := MkdirAll(up, m); e != nil {
			return e
		}
	}
	return Mkdir(filepath.Clean(p), m)
}

func Chdir(p string) error {
	point()
	n, e := S.fs.get("chdir", p, true)
	if e == nil && !n.mode.IsDir() {
		e = perr("chdir", p, syscall.ENOTDIR)
	}
	if e != nil {
		return e
	}
	// the canonical name
	S.fs.cwd = S.fs.canon(p)
	return nil
}

// canon is the path of p without links and dots.
func (f *simFS) canon(p string) string {
	_, _, want, _ := f.find(p, true)
	res := "/"
	var walk func(p string, n *node) bool
	walk = func(p string, n *node) bool {
		if n == want {
			res = p
			return true
		}
		for _, k := range n.names() {
			if walk(strings.TrimSuffix(p, "/")+"/"+k, n.kids[k]) {
				return true
			}
		}
		return false
	}
	walk("/", f.root)
	return res
}

func Getwd() (string, error) {
	point()
	if e := S.fs.try("getwd", ""); e != nil {
		return "", os.NewSyscallError("getwd", e)
	}
	return S.fs.cwd, nil
}

// FileAbs stands for filepath.Abs.
func FileAbs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, e := Getwd()
	if e != nil {
		return "", e
	}
	return filepath.Join(wd, p), nil
}

func infos(p string) ([]os.FileInfo, error) {
	point()
	n, e := S.fs.get("open", p, true)
	if e == nil && !n.mode.IsDir() {
		e = perr("readdirent", p, syscall.ENOTDIR)
	}
	if e != nil {
		return nil, e
	}
	if e := S.fs.try("readdir", p); e != nil {
		return nil, perr("readdirent", p, e)
	}
	var r []os.FileInfo
	for _, k := range n.names() {
		r = append(r, simInfo{k, n.kids[k]})
	}
	return r, nil
}

// IoReadDir stands for ioutil.ReadDir.
func IoReadDir(p string) ([]os.FileInfo, error) { return infos(p) }

func ReadDir(p string) ([]os.DirEntry, error) {
	is, e := infos(p)
	var r []os.DirEntry
	for _, i := range is {
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, e
}

// Walk stands for filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	i, e := Lstat(root)
	if e != nil {
		e = fn(root, nil, e)
	} else {
		e = walk(root, i, fn)
	}
	if e == filepath.SkipDir || e == filepath.SkipAll {
		return nil
	}
	return e
}

func walk(p string, i os.FileInfo, fn filepath.WalkFunc) error {
	if !i.IsDir() {
		return fn(p, i, nil)
	}
	ks, e := infos(p)
	e1 := fn(p, i, e)
	if e != nil || e1 != nil {
		return e1
	}
	for _, k := range ks {
		if e := walk(filepath.Join(p, k.Name()), k, fn); e != nil {
			if e == filepath.SkipDir && k.IsDir() {
				continue
			}
			return e
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i os.FileInfo, e error) error {
		if i == nil {
			return fn(p, nil, e)
		}
		return fn(p, fs.FileInfoToDirEntry(i), e)
	})
}

// File stands for *os.File.
type File struct {
	name   string
	n      *node
	r      io.Reader // nil: from n
	pos    int
	rd, wr bool
	app    bool
	closed bool
	std    bool
}

func (f *File) use(op string, ok bool) error {
	point()
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	if !ok {
		return perr(op, f.name, syscall.EBADF)
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if e := f.use("read", f == nil || f.rd); e != nil {
		return 0, e
	}
	if f.r != nil {
		return f.r.Read(p)
	}
	if f.n.mode.IsDir() {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	var rest []byte
	if f.pos < len(f.n.data) {
		rest = f.n.data[f.pos:]
	}
	n := len(p)
	if n > len(rest) {
		n = len(rest)
	}
	if f2 := S.fs.fault; f2 != nil && len(p) > 0 {
		k, e := f2("read", f.name, n)
		if e != nil {
			S.counts["fault.fs_read"]++
			f.pos += copy(p, rest[:k])
			return k, perr("read", f.name, e)
		}
		if k < n && k > 0 {
			S.counts["fault.fs_shortread"]++
			n = k
		}
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	f.pos += copy(p[:n], rest)
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if f != nil && f.std {
		if f.name == "stdout" {
			return out(string(p))
		}
		if f.name == "stderr" && len(S.fs.err) < 1<<16 {
			S.fs.err = append(S.fs.err, p...)
		}
		return len(p), nil
	}
	if e := f.use("write", f == nil || f.wr); e != nil {
		return 0, e
	}
	n := len(p)
	var err error
	if f2 := S.fs.fault; f2 != nil {
		if k, e := f2("write", f.name, n); e != nil {
			S.counts["fault.fs_write"]++
			n, err = k, perr("write", f.name, e)
		}
	}
	if f.app {
		f.pos = len(f.n.data)
	}
	for len(f.n.data) < f.pos {
		f.n.data = append(f.n.data, 0)
	}
	if f.pos == len(f.n.data) {
		f.n.data = append(f.n.data, p[:n]...)
	} else {
		// what was there may have been handed out.
		d := append([]byte(nil), f.n.data[:f.pos]...)
		d = append(d, p[:n]...)
		if f.pos+n < len(f.n.data) {
			d = append(d, f.n.data[f.pos+n:]...)
		}
		f.n.data = d
	}
	f.pos += n
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() error {
	if f != nil && f.std {
		return nil
	}
	if e := f.use("close", true); e != nil {
		return e
	}
	f.closed = true
	delete(S.fs.open, f)
	if f.wr {
		if e := S.fs.try("close", f.name); e != nil {
			return perr("close", f.name, e)
		}
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Sync() error {
	if f.std {
		return nil
	}
	if e := f.use("sync", true); e != nil {
		return e
	}
	if e := S.fs.try("sync", f.name); e != nil {
		return perr("sync", f.name, e)
	}
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if e := f.use("stat", true); e != nil {
		return nil, e
	}
	if e := S.fs.try("fstat", f.name); e != nil {
		return nil, perr("stat", f.name, e)
	}
	return simInfo{filepath.Base(f.name), f.n}, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if e := f.use("seek", true); e != nil {
		return 0, e
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = int(off)
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if e := f.use("truncate", f.wr); e != nil {
		return e
	}
	for int64(len(f.n.data)) < n {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = append([]byte(nil), f.n.data[:n]...)
	return nil
}

func (f *File) Chmod(os.FileMode) error { return f.use("chmod", true) }

func (f *File) Readdir(n int) ([]os.FileInfo, error) { return infos(f.name) }

func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(f.name) }

// OsStderr stands for os.Stderr.
func OsStderr() *File { return &File{name: "stderr", std: true} }

// Stderr is what was written to the standard error output.
func Stderr() string { return string(S.fs.err) }

// OsStdout stands for os.Stdout.
func OsStdout() *File { return &File{name: "stdout", std: true} }

func OsStdin() *File {
	if S.fs.root.kids["<stdin>"] == nil {
		return &File{r: bytes.NewReader(nil), name: "stdin", rd: true, std: true}
	}
	f, _ := Open("/<stdin>")
	delete(S.fs.open, f)
	f.std = true
	return f
}

func Open(path string) (*File, error) { return OpenFile(path, os.O_RDONLY, 0) }
func Create(p string) (*File, error)  { return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func OpenFile(p string, fl int, m os.FileMode) (*File, error) {
	point()
	acc := fl & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	wr := acc != os.O_RDONLY
	op := "open"
	if wr {
		op = "create"
	}
	if e := S.fs.try(op, p); e != nil {
		return nil, perr("open", p, e)
	}
	d, name, n, e := S.fs.find(p, true)
	switch {
	case e != nil:
	case n == nil && fl&os.O_CREATE == 0:
		e = syscall.ENOENT
	case n == nil:
		n = &node{mode: m & 0777}
		d.kids[name] = n
	case fl&os.O_EXCL != 0 && fl&os.O_CREATE != 0:
		e = syscall.EEXIST
	case n.mode.IsDir() && wr:
		e = syscall.EISDIR
	case n.mode&os.ModeSocket != 0:
		e = syscall.ENXIO
	}
	if e != nil {
		return nil, perr("open", p, e)
	}
	if wr && fl&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := &File{name: p, n: n, rd: acc != os.O_WRONLY, wr: wr, app: fl&os.O_APPEND != 0}
	if n.rd != nil && !wr {
		f.r = n.rd(n.data)
	}
	S.fs.open[f] = true
	return f, nil
}

func ReadFile(p string) ([]byte, error) {
	f, e := Open(p)
	if e != nil {
		return nil, e
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(p string, b []byte, m os.FileMode) error {
	f, e := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if e != nil {
		return e
	}
	_, e = f.Write(b)
	if e1 := f.Close(); e == nil {
		e = e1
	}
	return e
}

func Getenv(k string) string {
	for _, e := range S.fs.env {
		if strings.HasPrefix(e, k+"=") {
			return e[len(k)+1:]
		}
	}
	return ""
}

func LookupEnv(k string) (string, bool) {
	for _, e := range S.fs.env {
		if strings.HasPrefix(e, k+"=") {
			return e[len(k)+1:], true
		}
	}
	return "", false
}

func Environ() []string { return append([]string(nil), S.fs.env...) }

// Freeze stops the current task for ever (its process crashed).
func Freeze(why string) {
	for {
		S.block(why)
		endingCheck()
	}
}
