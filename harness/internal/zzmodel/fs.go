package zzmodel

import (
	"io"
	"os"
	"strings"
	"syscall"
	"unsafe"

	zz "github.com/vivint/rothko/internal/zzverif"
)

// The file system model: a tree of nodes whose contents live in memory which
// survives a simulated crash, like the page cache survives a killed process.
// Mappings alias that memory. Every call which changes the tree is one atomic
// step, preceded by a crash point, and may fail when fault injection is armed.

type node struct {
	name    string
	isDir   bool
	ents    []*node
	data    []byte
	aliases [][]byte
}

type mfile struct {
	fd     int
	n      *node
	path   string
	closed bool
	pos    int
}

type mapping struct {
	addr uintptr
	b    []byte
	n    *node
}

var (
	root    = &node{isDir: true, ents: []*node{{name: "zz", isDir: true}}}
	fdTab   []*mfile
	maps    []mapping
	Persist bool // file contents are crash points

	// Faults is the number of system calls that may still fail.
	Faults    int
	Faulted   int
	LastFault string

	// OpenFDs and Mappings count what is held by the code under test.
	OpenFDs  int
	Mappings int
	Opened   int
	Mapped   int

	// ReverseDir lists directories backwards.
	ReverseDir bool
	DirChunk   int // entries returned by one ReadDirent call, 0 = as many as fit
)

// MkRoot creates a directory for the harness.
func MkRoot(path string) { mkAll(path) }

// fault decides whether the call fails.
func fault(what string) bool {
	if Faults <= 0 {
		return false
	}
	if zz.Choose("fault "+what, 2) == 1 {
		Faults--
		Faulted++
		LastFault = what
		zz.Note("injected failure of " + what)
		return true
	}
	return false
}

func split(p string) []string {
	var out []string
	start := 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			if i > start {
				c := p[start:i]
				if c != "." {
					out = append(out, c)
				}
			}
			start = i + 1
		}
	}
	return out
}

func (n *node) child(name string) *node {
	for _, e := range n.ents {
		if e.name == name {
			return e
		}
	}
	return nil
}

// walk resolves a path to its parent and node (either may be nil).
func walk(p string) (parent, n *node, last string, errno syscall.Errno) {
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return nil, nil, "", syscall.EINVAL
		}
	}
	if p == "" {
		return nil, nil, "", syscall.ENOENT
	}
	cur := root
	cs := split(p)
	if len(cs) == 0 {
		return nil, root, "", 0
	}
	var stack []*node
	for i, c := range cs {
		if len(c) > 255 {
			return nil, nil, "", syscall.ENAMETOOLONG
		}
		if !cur.isDir {
			return nil, nil, "", syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
			if i == len(cs)-1 {
				return nil, cur, "", 0
			}
			continue
		}
		ch := cur.child(c)
		if i == len(cs)-1 {
			return cur, ch, c, 0
		}
		if ch == nil {
			return nil, nil, "", syscall.ENOENT
		}
		stack = append(stack, cur)
		cur = ch
	}
	return nil, cur, "", 0
}

func mkAll(p string) syscall.Errno {
	cs := split(p)
	cur := root
	for _, c := range cs {
		for i := 0; i < len(c); i++ {
			if c[i] == 0 {
				return syscall.EINVAL
			}
		}
		if len(c) > 255 {
			return syscall.ENAMETOOLONG
		}
		ch := cur.child(c)
		if ch == nil {
			ch = &node{name: c, isDir: true}
			zz.CrashPoint("mkdir")
			cur.ents = append(cur.ents, ch)
		}
		if !ch.isDir {
			return syscall.ENOTDIR
		}
		cur = ch
	}
	return 0
}

func perr(op, path string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: path, Err: e}
}

func newFD(n *node, path string) *mfile {
	f := &mfile{fd: len(fdTab) + 3, n: n, path: path}
	fdTab = append(fdTab, f)
	OpenFDs++
	Opened++
	return f
}

func setData(n *node, size int) {
	old := n.data
	d := make([]byte, size)
	copy(d, old)
	zz.Name(d, n.name)
	if Persist {
		zz.CrashMem(d)
	}
	for _, a := range n.aliases {
		zz.Unmap(a)
	}
	n.aliases = nil
	n.data = d
}

func open(name string, flag int) (*mfile, syscall.Errno) {
	parent, n, last, e := walk(name)
	if e != 0 {
		return nil, e
	}
	if n == nil {
		if flag&os.O_CREATE == 0 || parent == nil {
			return nil, syscall.ENOENT
		}
		zz.CrashPoint("create " + last)
		n = &node{name: last}
		parent.ents = append(parent.ents, n)
		return newFD(n, name), 0
	}
	if n.isDir && flag&(os.O_RDWR|os.O_WRONLY) != 0 {
		return nil, syscall.EISDIR
	}
	if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, syscall.EEXIST
	}
	if flag&os.O_TRUNC != 0 && !n.isDir && len(n.data) > 0 {
		zz.CrashPoint("truncate " + last)
		setData(n, 0)
	}
	return newFD(n, name), 0
}

//zz:for os.OpenFile fs
func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if fault("open") {
		return nil, perr("open", name, syscall.EMFILE)
	}
	f, e := open(name, flag)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return (*os.File)(unsafe.Pointer(f)), nil
}

//zz:for os.Open fs
func osOpen(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDONLY, 0)
}

//zz:for os.Create fs
func osCreate(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//zz:for os.MkdirAll fs
func osMkdirAll(path string, perm os.FileMode) error {
	if fault("mkdir") {
		return perr("mkdir", path, syscall.ENOSPC)
	}
	if e := mkAll(path); e != 0 {
		return perr("mkdir", path, e)
	}
	return nil
}

//zz:for os.Remove fs
func osRemove(name string) error {
	if fault("remove") {
		return perr("remove", name, syscall.EIO)
	}
	parent, n, _, e := walk(name)
	if e != 0 {
		return perr("remove", name, e)
	}
	if n == nil || parent == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.isDir && len(n.ents) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	zz.CrashPoint("remove " + n.name)
	for i, c := range parent.ents {
		if c == n {
			parent.ents = append(append([]*node{}, parent.ents[:i]...), parent.ents[i+1:]...)
			break
		}
	}
	return nil
}

//zz:for os.Rename fs
func osRename(from, to string) error {
	if fault("rename") {
		return perr("rename", from, syscall.EIO)
	}
	p1, n, _, e := walk(from)
	if e != 0 || n == nil {
		return perr("rename", from, syscall.ENOENT)
	}
	p2, t, last, e := walk(to)
	if e != 0 || p2 == nil {
		return perr("rename", to, syscall.ENOENT)
	}
	zz.CrashPoint("rename")
	var ents []*node
	for _, c := range p1.ents {
		if c != n {
			ents = append(ents, c)
		}
	}
	p1.ents = ents
	ents = nil
	for _, c := range p2.ents {
		if c != t {
			ents = append(ents, c)
		}
	}
	n.name = last
	p2.ents = append(ents, n)
	return nil
}

//zz:for os.Truncate fs
func osTruncate(name string, size int64) error {
	if fault("truncate") {
		return perr("truncate", name, syscall.EIO)
	}
	_, n, _, e := walk(name)
	if e != 0 || n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	zz.CrashPoint("truncate")
	resize(n, int(size))
	return nil
}

func resize(n *node, size int) {
	if size == len(n.data) {
		return
	}
	if size < len(n.data) {
		n.data = n.data[:size]
	}
	setData(n, size)
}

func errnoOf(err error) (syscall.Errno, bool) {
	for {
		switch e := err.(type) {
		case *os.PathError:
			err = e.Err
			continue
		case *os.SyscallError:
			err = e.Err
			continue
		case syscall.Errno:
			return e, true
		}
		return 0, false
	}
}

//zz:for os.IsNotExist
func osIsNotExist(err error) bool {
	if e, ok := errnoOf(err); ok {
		return e == syscall.ENOENT
	}
	return err != nil && err == os.ErrNotExist
}

//zz:for os.IsExist
func osIsExist(err error) bool {
	e, ok := errnoOf(err)
	return ok && (e == syscall.EEXIST || e == syscall.ENOTEMPTY)
}

//zz:for (syscall.Errno).Error
func errnoError(e syscall.Errno) string { return "errno" }

func mf(f *os.File) *mfile { return (*mfile)(unsafe.Pointer(f)) }

//zz:for (*os.File).Fd
func fileFd(f *os.File) uintptr {
	m := mf(f)
	if m == nil || m.closed {
		return ^uintptr(0)
	}
	return uintptr(m.fd)
}

//zz:for (*os.File).Name
func fileName(f *os.File) string { return mf(f).path }

//zz:for (*os.File).Close
func fileClose(f *os.File) error {
	m := mf(f)
	if m == nil {
		return syscall.EINVAL
	}
	if m.closed {
		return syscall.EBADF
	}
	m.closed = true
	OpenFDs--
	return nil
}

type finfo struct {
	os.FileInfo
	n *node
}

func (i finfo) Size() int64  { return int64(len(i.n.data)) }
func (i finfo) Name() string { return i.n.name }
func (i finfo) IsDir() bool  { return i.n.isDir }
func (i finfo) Mode() os.FileMode {
	if i.n.isDir {
		return os.ModeDir | 0755
	}
	return 0644
}

//zz:for (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	m := mf(f)
	if m == nil || m.closed {
		return nil, syscall.EBADF
	}
	if fault("fstat") {
		return nil, perr("stat", m.path, syscall.EIO)
	}
	return finfo{n: m.n}, nil
}

//zz:for os.Stat fs
func osStat(name string) (os.FileInfo, error) {
	if fault("stat") {
		return nil, perr("stat", name, syscall.EIO)
	}
	_, n, _, e := walk(name)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return finfo{n: n}, nil
}

//zz:for os.Lstat fs
func osLstat(name string) (os.FileInfo, error) { return osStat(name) }

//zz:for (*os.File).Truncate fs
func fileTruncate(f *os.File, size int64) error {
	m := mf(f)
	if fault("ftruncate") {
		return perr("truncate", m.path, syscall.EIO)
	}
	zz.CrashPoint("truncate " + m.n.name)
	resize(m.n, int(size))
	return nil
}

//zz:for (*os.File).Sync
func fileSync(f *os.File) error {
	if fault("fsync") {
		return perr("sync", mf(f).path, syscall.EIO)
	}
	return nil
}

//zz:for (*os.File).Readdirnames fs
func fileReaddirnames(f *os.File, n int) ([]string, error) {
	m := mf(f)
	if m == nil || m.closed {
		return nil, syscall.EBADF
	}
	if fault("readdir") {
		return nil, perr("readdirent", m.path, syscall.EIO)
	}
	if !m.n.isDir {
		return nil, perr("readdirent", m.path, syscall.ENOTDIR)
	}
	var out []string
	for _, e := range ordered(m.n) {
		out = append(out, e.name)
	}
	if n <= 0 {
		out = out[m.pos:]
		m.pos += len(out)
		return out, nil
	}
	out = out[m.pos:]
	if len(out) == 0 {
		return nil, io.EOF
	}
	if len(out) > n {
		out = out[:n]
	}
	m.pos += len(out)
	return out, nil
}

func ordered(n *node) []*node {
	if !ReverseDir {
		return append([]*node{}, n.ents...)
	}
	var out []*node
	for i := len(n.ents) - 1; i >= 0; i-- {
		out = append(out, n.ents[i])
	}
	return out
}

func fdNode(fd int) *mfile {
	if fd < 3 || fd-3 >= len(fdTab) || fdTab[fd-3].closed {
		return nil
	}
	return fdTab[fd-3]
}

//zz:for syscall.Fallocate fs
func sysFallocate(fd int, mode uint32, off int64, l int64) error {
	m := fdNode(fd)
	if m == nil {
		return syscall.EBADF
	}
	if off < 0 || l <= 0 {
		return syscall.EINVAL
	}
	if fault("fallocate") {
		return syscall.ENOSPC
	}
	zz.CrashPoint("fallocate " + m.n.name)
	if int(off+l) > len(m.n.data) && mode&1 == 0 {
		setData(m.n, int(off+l))
	}
	return nil
}

//zz:for syscall.Ftruncate fs
func sysFtruncate(fd int, l int64) error {
	m := fdNode(fd)
	if m == nil {
		return syscall.EBADF
	}
	if fault("ftruncate") {
		return syscall.EIO
	}
	zz.CrashPoint("ftruncate " + m.n.name)
	resize(m.n, int(l))
	return nil
}

//zz:for syscall.Close
func sysClose(fd int) error {
	m := fdNode(fd)
	if m == nil {
		return syscall.EBADF
	}
	m.closed = true
	OpenFDs--
	return nil
}

func mmap(length, prot, flags, fd, off uintptr) (uintptr, syscall.Errno) {
	if fault("mmap") {
		return ^uintptr(0), syscall.ENOMEM
	}
	m := fdNode(int(fd))
	if m == nil {
		return ^uintptr(0), syscall.EBADF
	}
	if length == 0 {
		return ^uintptr(0), syscall.EINVAL
	}
	if m.n.isDir {
		return ^uintptr(0), syscall.ENODEV
	}
	if off != 0 || int(length) > len(m.n.data) {
		zz.Fail("mapping past the end of the file")
	}
	if flags&syscall.MAP_SHARED == 0 {
		zz.Fail("mapping is not shared")
	}
	a := zz.Alias(m.n.data[:int(length)])
	m.n.aliases = append(m.n.aliases, a)
	addr := zz.MapAddr(a)
	maps = append(maps, mapping{addr, a, m.n})
	Mappings++
	Mapped++
	return addr, 0
}

func munmap(addr, length uintptr) syscall.Errno {
	for i, m := range maps {
		if m.addr == addr {
			if int(length) != len(m.b) {
				zz.Fail("munmap of a different length than was mapped")
			}
			zz.Unmap(m.b)
			maps = append(append([]mapping{}, maps[:i]...), maps[i+1:]...)
			Mappings--
			return 0
		}
	}
	zz.Fail("munmap of memory which is not mapped (released twice)")
	return syscall.EINVAL
}

//zz:for syscall.Syscall6
func sysSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	switch trap {
	case syscall.SYS_MMAP:
		r1, err = mmap(a2, a3, a4, a5, a6)
		return r1, 0, err
	}
	zz.Fail("model: unknown system call (6)")
	return 0, 0, syscall.ENOSYS
}

//zz:for syscall.Syscall
func sysSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	switch trap {
	case syscall.SYS_MUNMAP:
		return 0, 0, munmap(a1, a2)
	case syscall.SYS_MSYNC:
		if fault("msync") {
			return ^uintptr(0), 0, syscall.EIO
		}
		return 0, 0, 0
	case syscall.SYS_OPEN:
		return sysOpen(a1, int(a2))
	case syscall.SYS_CLOSE:
		if sysClose(int(a1)) != nil {
			return ^uintptr(0), 0, syscall.EBADF
		}
		return 0, 0, 0
	}
	zz.Fail("model: unknown system call")
	return 0, 0, syscall.ENOSYS
}

func sysOpen(p uintptr, flags int) (r1, r2 uintptr, err syscall.Errno) {
	if fault("open") {
		return ^uintptr(0), 0, syscall.EMFILE
	}
	var name []byte
	for i := uintptr(0); ; i++ {
		c := *(*byte)(unsafe.Pointer(p + i))
		if c == 0 {
			break
		}
		name = append(name, c)
	}
	f, e := open(string(name), flags)
	if e != 0 {
		return ^uintptr(0), 0, e
	}
	return uintptr(f.fd), 0, 0
}

//zz:for syscall.ReadDirent fs
func sysReadDirent(fd int, buf []byte) (int, error) {
	m := fdNode(fd)
	if m == nil {
		return -1, syscall.EBADF
	}
	if fault("getdents") {
		return -1, syscall.EIO
	}
	if !m.n.isDir {
		return -1, syscall.ENOTDIR
	}
	names := []string{".", ".."}
	for _, e := range ordered(m.n) {
		names = append(names, e.name)
	}
	if ReverseDir {
		names = append(names[2:], names[:2]...)
	}
	n, cnt := 0, 0
	for m.pos < len(names) {
		nm := names[m.pos]
		l := (19 + len(nm) + 1 + 7) &^ 7
		if n+l > len(buf) {
			if n == 0 {
				return -1, syscall.EINVAL
			}
			break
		}
		if DirChunk > 0 && cnt >= DirChunk {
			break
		}
		e := buf[n : n+l]
		for i := range e {
			e[i] = 0
		}
		e[0] = byte(m.pos + 1)
		e[8] = byte(m.pos + 1)
		e[16], e[17] = byte(l), byte(l>>8)
		copy(e[19:], nm)
		n += l
		cnt++
		m.pos++
	}
	return n, nil
}

//zz:for syscall.Getrlimit
func sysGetrlimit(r int, l *syscall.Rlimit) error {
	l.Cur, l.Max = 1024, 4096
	return nil
}

// ---- harness side

// Lookup returns the contents of a file, or nil.
func Lookup(path string) []byte {
	_, n, _, e := walk(path)
	if e != 0 || n == nil || n.isDir {
		return nil
	}
	return n.data
}

// Exists tells whether there is a file or directory at path.
func Exists(path string) bool {
	_, n, _, e := walk(path)
	return e == 0 && n != nil
}

// List returns the names in a directory.
func List(path string) []string {
	_, n, _, e := walk(path)
	if e != 0 || n == nil {
		return nil
	}
	var out []string
	for _, c := range n.ents {
		out = append(out, c.name)
	}
	return out
}

// PutFile creates a file with the given contents.
func PutFile(path string, data []byte) {
	i := strings.LastIndexByte(path, '/')
	mkAll(path[:i])
	parent, n, last, _ := walk(path)
	if n == nil {
		n = &node{name: last}
		parent.ents = append(parent.ents, n)
	}
	n.data = data
}

// Restart forgets the descriptors and mappings of the killed process.
func Restart() {
	for _, m := range maps {
		zz.Unmap(m.b)
	}
	maps = nil
	for _, f := range fdTab {
		f.closed = true
	}
	OpenFDs, Mappings = 0, 0
	Faults = 0
}
