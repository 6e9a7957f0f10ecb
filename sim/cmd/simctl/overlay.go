package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch replaces exact text of the Go distribution. A text that is not there
// exactly count times stops the build: the simulator must never run half patched.
type patch struct {
	file, old, new string
	count          int
}

var stdPatches = []patch{
	// --- scheduler: goroutines of the bubble go to the seeded queue ---
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simOn && simPut(gp) {\n\t\treturn\n\t}\n", 1},
	{"runtime/proc.go", "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\n", "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\n\tif simOn && simPut(gp) {\n\t\treturn\n\t}\n", 1},
	{"runtime/proc.go", "\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n", "\tif simOn {\n\t\tif gp := simGet(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n", 1},
	{"runtime/proc.go", "\tif !mp.spinning && sched.needspinning.Load() == 1 {\n\t\t// See \"Delicate dance\" comment below.\n", "\tif simOn && simPending() {\n\t\tunlock(&sched.lock)\n\t\tgoto top\n\t}\n\tif !mp.spinning && sched.needspinning.Load() == 1 {\n\t\t// See \"Delicate dance\" comment below.\n", 1},
	{"runtime/proc.go", "const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n", 1},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n\tn := 0\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n\tn := 0\n", 1},
	// --- randomness ---
	{"runtime/rand.go", "\tseed := &globalRand.seed\n\tif len(startupRand) >= 16 &&\n", "\tseed := &globalRand.seed\n\tif true {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i*7 + 1)\n\t\t}\n\t} else if len(startupRand) >= 16 &&\n", 1},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simRandActive() {\n\t\treturn simNext(&sim.rnd)\n\t}\n", 1},
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simCheaprandn(uint32(norder + 1))\n", 1},
	{"runtime/time.go", "\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simCheaprand()\n", 1},
	{"runtime/sema.go", "\ts.ticket = cheaprand() | 1\n", "\ts.ticket = simCheaprand() | 1\n", 1},
	{"runtime/proc.go", "\tnewg.goid = pp.goidcache\n", "\tnewg.goid = pp.goidcache\n\tif simOn && newg.bubble != nil {\n\t\tsim.goros++\n\t\tnewg.goid = sim.baseGoid + sim.goros\n\t}\n", 1},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif simOn {\n\t\treturn 0\n\t}\n", 1},
	// --- every wait inside the bubble counts as idle: nothing outside can end it ---
	{"runtime/runtime2.go", "var isIdleInSynctest = [len(waitReasonStrings)]bool{\n", "var isIdleInSynctest = [len(waitReasonStrings)]bool{\n\twaitReasonSyncMutexLock:         true,\n\twaitReasonSyncRWMutexRLock:      true,\n\twaitReasonSyncRWMutexLock:       true,\n\twaitReasonSyncWaitGroupWait:     true,\n\twaitReasonChanReceive:           true,\n\twaitReasonChanSend:              true,\n\twaitReasonSelect:                true,\n", 1},
	// --- channels kept in package variables may outlive a bubble ---
	{"runtime/chan.go", "\tif c.bubble != nil && getg().bubble != c.bubble {\n", "\tif c.bubble != nil && getg().bubble != c.bubble && !simOn {\n", 5},
	{"runtime/select.go", "\t\t\tif getg().bubble != cas.c.bubble {\n", "\t\t\tif getg().bubble != cas.c.bubble && !simOn {\n", 1},
	{"runtime/synctest.go", "\tbubble.now = synctestBaseTime\n", "\tbubble.now = synctestBaseTime\n\tif simOn && simStartTime != 0 {\n\t\tbubble.now = simStartTime\n\t}\n", 1},
	// --- pools: no accidental ordering between callers in race builds ---
	{"sync/pool.go", "\tif race.Enabled {\n\t\tif runtime_randn(4) == 0 {\n\t\t\t// Randomly drop x on floor.\n\t\t\treturn\n\t\t}\n", "\tif race.Enabled {\n\t\tif runtime_randn(4) < 4 {\n\t\t\treturn\n\t\t}\n", 1},
	// --- file system ---
	{"os/file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\ttestlog.Open(name)\n", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\tif SimHook != nil {\n\t\top := \"open\"\n\t\tif flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC|O_APPEND) != 0 {\n\t\t\top = \"openw\"\n\t\t}\n\t\tif _, err := simOp(op, name, \"\", flag); err != nil {\n\t\t\treturn nil, simPathErr(\"open\", name, err)\n\t\t}\n\t}\n\ttestlog.Open(name)\n", 1},
	{"os/file.go", "func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n\tif _, err := simOp(\"mkdir\", name, \"\", 0); err != nil {\n\t\treturn simPathErr(\"mkdir\", name, err)\n\t}\n", 1},
	{"os/file_unix.go", "func openDirNolog(name string) (*File, error) {\n", "func openDirNolog(name string) (*File, error) {\n\tif _, err := simOp(\"opendir\", name, \"\", 0); err != nil {\n\t\treturn nil, simPathErr(\"open\", name, err)\n\t}\n", 1},
	{"os/file_unix.go", "func Remove(name string) error {\n", "func Remove(name string) error {\n\tif _, err := simOp(\"remove\", name, \"\", 0); err != nil {\n\t\treturn simPathErr(\"remove\", name, err)\n\t}\n", 1},
	{"os/file_unix.go", "func rename(oldname, newname string) error {\n", "func rename(oldname, newname string) error {\n\tif _, err := simOp(\"rename\", oldname, newname, 0); err != nil {\n\t\treturn &LinkError{\"rename\", oldname, newname, err}\n\t}\n", 1},
	{"os/file_unix.go", "func Truncate(name string, size int64) error {\n", "func Truncate(name string, size int64) error {\n\tif _, err := simOp(\"truncate\", name, \"\", 0); err != nil {\n\t\treturn simPathErr(\"truncate\", name, err)\n\t}\n", 1},
	{"os/file_unix.go", "func Link(oldname, newname string) error {\n", "func Link(oldname, newname string) error {\n\tif _, err := simOp(\"link\", oldname, newname, 0); err != nil {\n\t\treturn &LinkError{\"link\", oldname, newname, err}\n\t}\n", 1},
	{"os/file_unix.go", "func Symlink(oldname, newname string) error {\n", "func Symlink(oldname, newname string) error {\n\tif _, err := simOp(\"symlink\", oldname, newname, 0); err != nil {\n\t\treturn &LinkError{\"symlink\", oldname, newname, err}\n\t}\n", 1},
	{"os/file_posix.go", "func chmod(name string, mode FileMode) error {\n", "func chmod(name string, mode FileMode) error {\n\tif _, err := simOp(\"chmod\", name, \"\", 0); err != nil {\n\t\treturn simPathErr(\"chmod\", name, err)\n\t}\n", 1},
	{"os/removeall_at.go", "func removeAll(path string) error {\n\tif path == \"\" {\n", "func removeAll(path string) error {\n\tif _, err := simOp(\"removeall\", path, \"\", 0); err != nil {\n\t\treturn simPathErr(\"RemoveAll\", path, err)\n\t}\n\tif path == \"\" {\n", 1},
	{"os/file_posix.go", "func (f *File) read(b []byte) (n int, err error) {\n", "func (f *File) read(b []byte) (n int, err error) {\n\tif SimHook != nil {\n\t\tl, e := SimHook(\"read\", f.name, \"\", len(b))\n\t\tif e != nil {\n\t\t\treturn 0, e\n\t\t}\n\t\tif l >= 0 && l < len(b) {\n\t\t\tb = b[:l]\n\t\t}\n\t}\n", 1},
	{"os/file_posix.go", "func (f *File) pread(b []byte, off int64) (n int, err error) {\n", "func (f *File) pread(b []byte, off int64) (n int, err error) {\n\tif SimHook != nil {\n\t\tl, e := SimHook(\"read\", f.name, \"\", len(b))\n\t\tif e != nil {\n\t\t\treturn 0, e\n\t\t}\n\t\tif l >= 0 && l < len(b) {\n\t\t\tb = b[:l]\n\t\t}\n\t}\n", 1},
	{"os/file_posix.go", "func (f *File) write(b []byte) (n int, err error) {\n", "func (f *File) write(b []byte) (n int, err error) {\n\tif SimStdio != nil && (f.name == \"/dev/stdout\" || f.name == \"/dev/stderr\") {\n\t\treturn SimStdio(f.name, b)\n\t}\n\tif SimHook != nil {\n\t\tl, e := SimHook(\"write\", f.name, \"\", len(b))\n\t\tif l >= 0 && l < len(b) {\n\t\t\tn, err = f.pfd.Write(b[:l])\n\t\t\tif e != nil && SimAfterWrite != nil {\n\t\t\t\tSimAfterWrite(e)\n\t\t\t}\n\t\t\tif err == nil {\n\t\t\t\terr = e\n\t\t\t}\n\t\t\treturn n, err\n\t\t}\n\t\tif e != nil {\n\t\t\treturn 0, e\n\t\t}\n\t}\n", 1},
	{"os/file_posix.go", "func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n", "func (f *File) pwrite(b []byte, off int64) (n int, err error) {\n\tif SimHook != nil {\n\t\tl, e := SimHook(\"write\", f.name, \"\", len(b))\n\t\tif e != nil && l <= 0 {\n\t\t\treturn 0, e\n\t\t}\n\t\tif l >= 0 && l < len(b) {\n\t\t\tn, err = f.pfd.Pwrite(b[:l], off)\n\t\t\tif e != nil && SimAfterWrite != nil {\n\t\t\t\tSimAfterWrite(e)\n\t\t\t}\n\t\t\tif err == nil {\n\t\t\t\terr = e\n\t\t\t}\n\t\t\treturn n, err\n\t\t}\n\t}\n", 1},
	{"os/file_posix.go", "func (f *File) Truncate(size int64) error {\n", "func (f *File) Truncate(size int64) error {\n\tif SimHook != nil {\n\t\tif _, e := SimHook(\"truncate\", f.name, \"\", 0); e != nil {\n\t\t\treturn f.wrapErr(\"truncate\", e)\n\t\t}\n\t}\n", 1},
	{"os/file_posix.go", "func (f *File) Sync() error {\n", "func (f *File) Sync() error {\n\tif SimHook != nil {\n\t\tif _, e := SimHook(\"sync\", f.name, \"\", 0); e != nil {\n\t\t\treturn f.wrapErr(\"sync\", e)\n\t\t}\n\t}\n", 1},
	{"os/file_posix.go", "\treturn f.file.close()\n", "\tif SimHook != nil {\n\t\tif _, e := SimHook(\"close\", f.name, \"\", 0); e != nil {\n\t\t\tf.file.close()\n\t\t\treturn f.wrapErr(\"close\", e)\n\t\t}\n\t}\n\treturn f.file.close()\n", 1},
	{"os/zero_copy_linux.go", "func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n", "func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n\tif SimHook != nil || SimStdio != nil {\n\t\treturn 0, false, nil\n\t}\n", 1},
	{"os/zero_copy_linux.go", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n\tif SimHook != nil || SimStdio != nil {\n\t\treturn 0, false, nil\n\t}\n", 1},
	{"os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n", 1},
	// --- surroundings ---
	{"os/env.go", "\ttestlog.Getenv(key)\n\tv, _ := syscall.Getenv(key)\n", "\tif v, _, ok := simSurroundings(key); ok {\n\t\treturn v\n\t}\n\ttestlog.Getenv(key)\n\tv, _ := syscall.Getenv(key)\n", 1},
	{"os/env.go", "\ttestlog.Getenv(key)\n\treturn syscall.Getenv(key)\n", "\tif v, set, ok := simSurroundings(key); ok {\n\t\treturn v, set\n\t}\n\ttestlog.Getenv(key)\n\treturn syscall.Getenv(key)\n", 1},
	{"os/sys.go", "\treturn hostname()\n", "\tif simSeed != 0 {\n\t\treturn simHostname(), nil\n\t}\n\treturn hostname()\n", 1},
	{"runtime/debug.go", "\treturn int(numCPUStartup)\n", "\tif simCPUs > 0 {\n\t\treturn simCPUs\n\t}\n\treturn int(numCPUStartup)\n", 1},
	{"runtime/debug.go", "\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\treturn ret\n", "\tif n <= 0 {\n\t\tunlock(&sched.lock)\n\t\tif simCPUs > 0 {\n\t\t\treturn simCPUs\n\t\t}\n\t\treturn ret\n", 1},
	// --- network ---
	{"net/http/roundtrip.go", "func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n", "func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n\tif SimRoundTrip != nil {\n\t\treturn SimRoundTrip(req)\n\t}\n", 1},
	{"net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n", 1},
}

var stdNew = map[string]string{ // destination under GOROOT/src -> source under /verif/sim
	"runtime/zz_sim.go":  "std/runtime/zz_sim.go",
	"os/zz_sim.go":       "std/os/zz_sim.go",
	"net/http/zz_sim.go": "std/nethttp/zz_sim.go",
	"net/zz_sim.go":      "std/net/zz_sim.go",
}

type overlay struct {
	dir     string // generated files
	Replace map[string]string
}

func writeIfChanged(path string, data []byte) error {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, data, 0o644)
}

// stdOverlay adds the patched Go distribution to the overlay.
func (o *overlay) stdOverlay(goroot, simdir string) error {
	src := map[string]string{}
	for _, p := range stdPatches {
		text, ok := src[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return err
			}
			text = string(b)
		}
		if n := strings.Count(text, p.old); n != p.count {
			return fmt.Errorf("patch of %s: text found %d times, want %d:\n%s", p.file, n, p.count, p.old)
		}
		src[p.file] = strings.ReplaceAll(text, p.old, p.new)
	}
	for f, text := range src {
		dst := filepath.Join(o.dir, "std", f)
		if err := writeIfChanged(dst, []byte(text)); err != nil {
			return err
		}
		o.Replace[filepath.Join(goroot, "src", f)] = dst
	}
	for f, from := range stdNew {
		o.Replace[filepath.Join(goroot, "src", f)] = filepath.Join(simdir, from)
	}
	for _, pkg := range []string{"simrt", "simpki"} {
		ents, err := os.ReadDir(filepath.Join(simdir, "std", pkg))
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				o.Replace[filepath.Join(goroot, "src", pkg, e.Name())] = filepath.Join(simdir, "std", pkg, e.Name())
			}
		}
	}
	return nil
}

func (o *overlay) write(path string) error {
	b, err := json.MarshalIndent(map[string]any{"Replace": o.Replace}, "", " ")
	if err != nil {
		return err
	}
	return writeIfChanged(path, b)
}
