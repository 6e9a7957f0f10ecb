package os

import (
	"runtime"
	"syscall"
)

// SimHook, when set, is consulted before every file operation.
//
// For read and write, limit bounds the number of bytes the real operation may
// transfer (negative: no bound); with a non-nil error a write first transfers
// limit bytes and then fails, and every other operation just fails.
var SimHook func(op, name, name2 string, n int) (limit int, err error)

// SimAfterWrite, when set, runs after the bytes of a failing write were transferred.
var SimAfterWrite func(error)

// SimStdio, when set, receives everything written to standard output and error.
var SimStdio func(name string, b []byte) (n int, err error)

// SimExit, when set, replaces process exit.
var SimExit func(code int)

func simOp(op, name, name2 string, n int) (int, error) {
	if SimHook == nil {
		return -1, nil
	}
	return SimHook(op, name, name2, n)
}

func simPathErr(op, name string, err error) error {
	return &PathError{Op: op, Path: name, Err: err}
}

// simSeed, when not zero, decides what the program under test sees of the
// machine it runs on: every environment variable it asks for, the name of the
// machine, and the number of processors. It is there before any package of the
// program is initialised.
var simSeed uint64

func init() {
	v, _ := syscall.Getenv("SIM_SURROUNDINGS")
	for i := 0; i < len(v); i++ {
		simSeed = simSeed*10 + uint64(v[i]-'0')
	}
	if simSeed != 0 {
		runtime.SimSetCPUs([]int{1, 2, 3, 4, 8, 16, 64, 256}[simHash("processors")%8])
	}
}

func simHash(s string) uint64 {
	h := simSeed*0x9e3779b97f4a7c15 + 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h >> 32
}

func simHostname() string {
	return []string{"a", "localhost", "tacho-1.example.org", "WIN-7", "build05"}[simHash("hostname")%5]
}

// simSurroundings is a variable as the program under test sees it. The rest of
// the process sees the real ones.
func simSurroundings(key string) (v string, set, ok bool) {
	if simSeed == 0 {
		return "", false, false
	}
	var pcs [8]uintptr
	n := runtime.Callers(3, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	const repo, harness = "github.com/way-platform/tachograph-go", "_test."
	for {
		f, more := frames.Next()
		if len(f.Function) > 3 && f.Function[:3] == "os." {
			if !more {
				return "", false, false
			}
			continue
		}
		if len(f.Function) < len(repo) || f.Function[:len(repo)] != repo {
			return "", false, false
		}
		if t := f.Function[len(repo):]; len(t) >= len(harness) && t[:len(harness)] == harness {
			return "", false, false
		}
		break
	}
	if len(key) >= 3 && key[:3] == "LC_" || len(key) >= 4 && key[:4] == "LANG" {
		l := []string{"", "C", "tr_TR.UTF-8", "de_DE.UTF-8", "ja_JP.SJIS", "en_US.ISO-8859-1", "pl"}
		v = l[simHash(key)%uint64(len(l))]
		return v, v != "", true
	}
	k := simHash(key) % 10
	return []string{"", "", "", "0", "1", "true", "debug", "/nowhere", "-1", "100"}[k], k > 1, true
}
