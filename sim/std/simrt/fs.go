package simrt

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// FSOp is one file operation about to be performed.
type FSOp struct {
	N        int
	Op       string // open openw mkdir opendir remove rename truncate link symlink chmod removeall read write sync close
	Name     string // absolute, cleaned
	Name2    string
	Size     int
	Flag     int
	Mutating bool
}

// FSFault is what happens to it.
type FSFault struct {
	Err    error // fails with this error ...
	Limit  int   // ... after this many bytes (reads: at most this many bytes are delivered); negative: none
	Crash  bool  // the process dies here, after Limit bytes of a write
	Silent bool  // not counted as a fault
}

// FS is the simulated layer over the real file system under Root.
type FS struct {
	r    *Run
	Root string // every mutation outside is refused and reported
	Plan func(op *FSOp) FSFault
	// Before runs before every operation, with the layer switched off.
	Before func(op *FSOp)
	// OnCrash runs when a crash is injected; it must not return.
	OnCrash func(op *FSOp)
	n       int
	off     bool
	Ops     []string
}

// Faultless is the absence of a fault.
var Faultless = FSFault{Limit: -1}

// NewFS installs the layer.
func (r *Run) NewFS(root string) *FS {
	f := &FS{r: r, Root: filepath.Clean(root)}
	r.fs = f
	os.SimHook = f.hook
	os.SimAfterWrite = func(e error) {
		if e == errCrash {
			f.OnCrash(&FSOp{N: f.n - 1, Op: "write"})
		}
	}
	return f
}

// N is the number of operations so far.
func (f *FS) N() int { return f.n }

// Without runs g with the layer switched off.
//
//go:norace
func (f *FS) Without(g func()) {
	old := f.off
	f.off = true
	g()
	f.off = old
}

// Inside reports whether path lies inside dir.
func Inside(path, dir string) bool {
	return path == dir || strings.HasPrefix(path, strings.TrimSuffix(dir, "/")+"/")
}

func absClean(name string) string {
	if name == "" {
		return ""
	}
	if !filepath.IsAbs(name) {
		wd, err := syscall.Getwd()
		if err != nil {
			wd = "/"
		}
		name = filepath.Join(wd, name)
	}
	return filepath.Clean(name)
}

//go:norace
func (f *FS) hook(op, name, name2 string, n int) (int, error) {
	if f.off {
		return -1, nil
	}
	o := &FSOp{Op: op, Name: absClean(name), Name2: absClean(name2), Size: n}
	switch op {
	case "openw":
		o.Mutating, o.Flag, o.Size = true, n, 0
	case "open":
		o.Flag, o.Size = n, 0
	case "mkdir", "remove", "rename", "truncate", "link", "symlink", "chmod", "removeall", "write":
		o.Mutating = true
	}
	if (strings.HasPrefix(o.Name, "/dev/") && !strings.HasPrefix(o.Name, "/dev/shm/")) || strings.HasPrefix(o.Name, "/proc/") || strings.HasPrefix(o.Name, "/sys/") || strings.HasPrefix(o.Name, "|") {
		return -1, nil
	}
	o.N = f.n
	f.n++
	if f.Before != nil {
		f.off = true
		f.Before(o)
		f.off = false
	}
	if o.Mutating && (!Inside(o.Name, f.Root) || (name2 != "" && !Inside(o.Name2, f.Root))) {
		f.r.Logf("%v fs %d %s %s refused: outside the scratch directory", f.r.T(), o.N, op, o.Name)
		Count("probe:mutation outside the scratch directory refused", 1)
		return 0, syscall.EPERM
	}
	d := Faultless
	if f.Plan != nil {
		d = f.Plan(o)
	}
	rel := o.Name
	if r, err := filepath.Rel(f.Root, o.Name); err == nil {
		rel = r
	}
	rel2 := ""
	if o.Name2 != "" {
		rel2 = " -> " + filepath.Base(o.Name2)
	}
	switch {
	case d.Crash:
		f.r.Logf("%v fs %d %s %s%s crash after %d of %d bytes", f.r.T(), o.N, op, rel, rel2, max(d.Limit, 0), o.Size)
		Count("fault:crash at "+op, 1)
		if op == "write" && d.Limit > 0 {
			return d.Limit, errCrash
		}
		f.OnCrash(o)
	case d.Err != nil:
		f.r.Logf("%v fs %d %s %s%s error %v after %d of %d bytes", f.r.T(), o.N, op, rel, rel2, d.Err, max(d.Limit, 0), o.Size)
		Count("fault:"+op+" "+errName(d.Err), 1)
	case d.Limit >= 0 && d.Limit < o.Size:
		f.r.Logf("%v fs %d %s %s short %d of %d", f.r.T(), o.N, op, rel, d.Limit, o.Size)
		if !d.Silent {
			Count("fault:short "+op, 1)
		}
	default:
		if o.Mutating || op == "open" {
			f.r.Logf("%v fs %d %s %s%s %d", f.r.T(), o.N, op, rel, rel2, o.Size)
		}
	}
	return d.Limit, d.Err
}

// errCrash marks a write during which the process dies.
var errCrash = crashError{}

type crashError struct{}

func (crashError) Error() string { return "simulated crash" }

func errName(err error) string {
	if e, ok := err.(syscall.Errno); ok {
		switch e {
		case syscall.ENOSPC:
			return "ENOSPC"
		case syscall.EIO:
			return "EIO"
		case syscall.EACCES:
			return "EACCES"
		case syscall.EMFILE:
			return "EMFILE"
		case syscall.EROFS:
			return "EROFS"
		case syscall.EPIPE:
			return "EPIPE"
		case syscall.EDQUOT:
			return "EDQUOT"
		case syscall.EINTR:
			return "EINTR"
		}
	}
	return fmt.Sprint(err)
}
