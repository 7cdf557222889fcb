// Package model is the executor's picture of the operating system: an in-memory file tree,
// environment variables and standard input. It runs only symbolically; the native replay of the
// same harness uses real files in a scratch directory.
package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const root = "/vroot/run"

type vnode struct {
	dir     bool
	content string
}

type handle struct {
	name string
	node *vnode
	pos  int
	shut bool
	list []os.DirEntry
	read bool
}

var (
	nodes   = map[string]*vnode{"/": {dir: true}, "/vroot": {dir: true}, root: {dir: true}, "/vhome": {dir: true}}
	handles = map[*os.File]*handle{}
	env     = map[string]string{"HOME": "/vhome", "PATH": "/nonexistent"}
	cwd     = "/vhome"

	stdin     string
	stdinFail bool
)

// ---- harness side

func Dir() string { return root }

func NdWriteFile(rel, content string) string {
	p := clean(root + "/" + rel)
	mkdirs(parent(p))
	nodes[p] = &vnode{content: content}
	return p
}

func NdMkdir(rel string) string {
	p := clean(root + "/" + rel)
	mkdirs(p)
	return p
}

func NdReadFile(rel string) (string, bool) {
	n, ok := nodes[clean(root+"/"+rel)]
	if !ok || n.dir {
		return "", false
	}
	return n.content, true
}

func NdChdir(dir string) { cwd = dir }

func NdSetenv(k, v string) { env[k] = v }

func NdStdin(content string, fail bool) {
	stdin, stdinFail = content, fail
}

// ---- paths

func parent(p string) string {
	i := strings.LastIndex(p, "/")
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

func base(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

func mkdirs(p string) {
	for p != "/" {
		if _, ok := nodes[p]; ok {
			return
		}
		nodes[p] = &vnode{dir: true}
		p = parent(p)
	}
}

func fail(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func find(op, name string) (*vnode, string, error) {
	if name == "" {
		return nil, "", fail(op, name, syscall.ENOENT)
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, "", fail(op, name, syscall.EINVAL)
	}
	p := clean(name)
	n, ok := nodes[p]
	if !ok {
		// a file used as a directory
		for q := parent(p); q != "/"; q = parent(q) {
			if m, ok := nodes[q]; ok {
				if !m.dir {
					return nil, "", fail(op, name, syscall.ENOTDIR)
				}
				break
			}
		}
		return nil, "", fail(op, name, syscall.ENOENT)
	}
	if strings.HasSuffix(name, "/") && !n.dir {
		return nil, "", fail(op, name, syscall.ENOTDIR)
	}
	return n, p, nil
}

// ---- file information

type info struct {
	name string
	n    *vnode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.n.content)) }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

type entry struct{ info }

func (e entry) Type() fs.FileMode          { return e.info.Mode().Type() }
func (e entry) Info() (fs.FileInfo, error) { return e.info, nil }
func (e entry) String() string             { return e.info.name }

func list(p string) []os.DirEntry {
	var names []string
	for q := range nodes {
		if q != "/" && parent(q) == p {
			names = append(names, base(q))
		}
	}
	sort.Strings(names)
	var out []os.DirEntry
	for _, n := range names {
		full := p + "/" + n
		if p == "/" {
			full = "/" + n
		}
		out = append(out, entry{info{n, nodes[full]}})
	}
	return out
}

// ---- package os

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n, p, err := find("open", name)
	if err != nil {
		if flag&os.O_CREATE == 0 || name == "" || strings.HasSuffix(name, "/") {
			return nil, err
		}
		p = clean(name)
		d, ok := nodes[parent(p)]
		if !ok || !d.dir {
			return nil, err
		}
		n = &vnode{}
		nodes[p] = n
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, fail("open", name, syscall.EEXIST)
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, fail("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 {
		n.content = ""
	}
	f := new(os.File)
	h := &handle{name: name, node: n}
	if flag&os.O_APPEND != 0 {
		h.pos = len(n.content)
	}
	if n.dir {
		h.list = list(p)
	}
	handles[f] = h
	return f, nil
}

func Stat(name string) (os.FileInfo, error) {
	n, p, err := find("stat", name)
	if err != nil {
		return nil, err
	}
	_ = p
	b := base(strings.TrimRight(name, "/"))
	if b == "" {
		b = "/"
	}
	return info{b, n}, nil
}

func Lstat(name string) (os.FileInfo, error) {
	n, _, err := find("lstat", name)
	if err != nil {
		return nil, err
	}
	return info{base(strings.TrimRight(name, "/")), n}, nil
}

func ReadFile(name string) ([]byte, error) {
	n, _, err := find("open", name)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, fail("read", name, syscall.EISDIR)
	}
	return []byte(n.content), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	handles[f].node.content = string(data)
	return nil
}

func ReadDir(name string) ([]os.DirEntry, error) {
	n, p, err := find("open", name)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, fail("readdirent", name, syscall.ENOTDIR)
	}
	return list(p), nil
}

func MkdirAll(path string, perm os.FileMode) error {
	p := clean(path)
	for q := p; q != "/"; q = parent(q) {
		if n, ok := nodes[q]; ok && !n.dir {
			return fail("mkdir", path, syscall.ENOTDIR)
		}
	}
	mkdirs(p)
	return nil
}

func Mkdir(path string, perm os.FileMode) error {
	p := clean(path)
	if _, ok := nodes[p]; ok {
		return fail("mkdir", path, syscall.EEXIST)
	}
	if n, ok := nodes[parent(p)]; !ok || !n.dir {
		return fail("mkdir", path, syscall.ENOENT)
	}
	nodes[p] = &vnode{dir: true}
	return nil
}

func Remove(name string) error {
	_, p, err := find("remove", name)
	if err != nil {
		return err
	}
	delete(nodes, p)
	return nil
}

func RemoveAll(name string) error {
	_, p, err := find("remove", name)
	if err != nil {
		return nil
	}
	for q := range nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(nodes, q)
		}
	}
	return nil
}

func Rename(from, to string) error {
	n, p, err := find("rename", from)
	if err != nil {
		return err
	}
	q := clean(to)
	if d, ok := nodes[parent(q)]; !ok || !d.dir {
		return fail("rename", from, syscall.ENOENT)
	}
	if o, ok := nodes[q]; ok && o.dir != n.dir {
		return fail("rename", from, syscall.EISDIR)
	}
	moved := map[string]*vnode{}
	for r, m := range nodes {
		if r == p || strings.HasPrefix(r, p+"/") {
			moved[q+r[len(p):]] = m
			delete(nodes, r)
		}
	}
	for r, m := range moved {
		nodes[r] = m
	}
	return nil
}

func Chmod(name string, mode os.FileMode) error {
	_, _, err := find("chmod", name)
	return err
}

var temps int

func temp(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
		mkdirs(dir)
	}
	temps++
	n := strconv.Itoa(1000 + temps)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return dir + "/" + pattern[:i] + n + pattern[i+1:]
	}
	return dir + "/" + pattern + n
}

func CreateTemp(dir, pattern string) (*os.File, error) {
	return OpenFile(temp(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	p := temp(dir, pattern)
	return p, Mkdir(p, 0o700)
}

func Getwd() (string, error) { return cwd, nil }

func UserHomeDir() (string, error) {
	if h := env["HOME"]; h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

func UserCacheDir() (string, error) {
	h, err := UserHomeDir()
	return h + "/.cache", err
}

func Getenv(k string) string { return env[k] }

func LookupEnv(k string) (string, bool) { v, ok := env[k]; return v, ok }

func Setenv(k, v string) error { env[k] = v; return nil }

func SyscallGetenv(k string) (string, bool) { v, ok := env[k]; return v, ok }

// ---- *os.File

func FileRead(f *os.File, b []byte) (int, error) {
	if f == os.Stdin {
		if stdinFail {
			return 0, fail("read", "/dev/stdin", syscall.EIO)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(stdin) == 0 {
			return 0, io.EOF
		}
		n := copy(b, stdin)
		stdin = stdin[n:]
		return n, nil
	}
	h, ok := handles[f]
	if !ok || f == nil {
		return 0, os.ErrInvalid
	}
	if h.shut {
		return 0, fail("read", h.name, os.ErrClosed)
	}
	if h.node.dir {
		return 0, fail("read", h.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.node.content) {
		return 0, io.EOF
	}
	n := copy(b, h.node.content[h.pos:])
	h.pos += n
	return n, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h, ok := handles[f]
	if !ok || f == nil {
		return 0, os.ErrInvalid
	}
	if h.shut {
		return 0, fail("write", h.name, os.ErrClosed)
	}
	c := h.node.content
	if h.pos > len(c) {
		h.pos = len(c)
	}
	rest := ""
	if h.pos+len(b) < len(c) {
		rest = c[h.pos+len(b):]
	}
	h.node.content = c[:h.pos] + string(b) + rest
	h.pos += len(b)
	return len(b), nil
}

func FileSync(f *os.File) error {
	if _, ok := handles[f]; !ok {
		return os.ErrInvalid
	}
	return nil
}

func FileChmod(f *os.File, mode os.FileMode) error { return FileSync(f) }

func FileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	if h, ok := handles[f]; ok {
		if h.shut {
			return fail("close", h.name, os.ErrClosed)
		}
		h.shut = true
	}
	return nil
}

func FileName(f *os.File) string {
	if h, ok := handles[f]; ok {
		return h.name
	}
	if f == os.Stdin {
		return "/dev/stdin"
	}
	return ""
}

func FileStat(f *os.File) (os.FileInfo, error) {
	h, ok := handles[f]
	if !ok {
		return nil, os.ErrInvalid
	}
	return info{base(strings.TrimRight(h.name, "/")), h.node}, nil
}

func FileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	h, ok := handles[f]
	if !ok {
		return nil, os.ErrInvalid
	}
	if !h.node.dir {
		return nil, fail("readdirent", h.name, syscall.ENOTDIR)
	}
	if n > 0 && len(h.list) == 0 {
		return nil, io.EOF
	}
	if n <= 0 || n > len(h.list) {
		n = len(h.list)
	}
	out := h.list[:n]
	h.list = h.list[n:]
	return out, nil
}

func FileReaddirnames(f *os.File, n int) ([]string, error) {
	es, err := FileReadDir(f, n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func FileReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	es, err := FileReadDir(f, n)
	var out []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, ok := handles[f]
	if !ok {
		return 0, os.ErrInvalid
	}
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(h.node.content) + int(off)
	}
	return int64(h.pos), nil
}
