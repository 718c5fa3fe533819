// Package build compiles grate from the repository's working tree together
// with the simulator: standard-library seams through a build overlay, and
// yield points inserted into the repository's own files (also through the
// overlay: nothing in the repository is touched).
package build

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// a patch replaces exactly one occurrence of old in a GOROOT source file.
type patch struct {
	file, old, new string
}

var stdPatches = []patch{
	// randomness: constant start-up seed, simulator-owned stream afterwards
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simRandOn {\n\t\treturn simRandNext()\n\t}\n"},
	{"runtime/rand.go", "\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = 12345\n\tmp.cheaprand64 = 6789012345\n"},
	// processor count
	{"runtime/debug.go", "\treturn int(numCPUStartup)\n", "\tif SimNumCPU > 0 {\n\t\treturn SimNumCPU\n\t}\n\treturn int(numCPUStartup)\n"},
	// allocation budget (large objects only)
	{"runtime/malloc.go", "\t// Assist the GC if needed. (On the reuse path, we currently compensate for this;\n", "\tif size > 65536 && simAllocLeft != 0 {\n\t\tsimAlloc(size)\n\t}\n\t// Assist the GC if needed. (On the reuse path, we currently compensate for this;\n"},
	// clock
	{"time/time.go", "func Now() Time {\n", "func Now() Time {\n\tif SimNow != nil {\n\t\tif sec, nsec, ok := SimNow(); ok {\n\t\t\treturn unixTime(sec, nsec)\n\t\t}\n\t}\n"},
	{"time/time.go", "func Since(t Time) Duration {\n", "// SimNow, when set, is the simulated clock.\nvar SimNow func() (sec int64, nsec int32, ok bool)\n\nfunc Since(t Time) Duration {\n\tif SimNow != nil {\n\t\treturn Now().Sub(t)\n\t}\n"},
	// process exit
	{"os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n"},
	{"os/proc.go", "func runtime_beforeExit(exitCode int)", "// SimExit, when set, is told about process exits.\nvar SimExit func(code int)\n\nfunc runtime_beforeExit(exitCode int)"},
	// the library's own object pools keep nothing, so they order nothing either
	{"sync/pool.go", "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif simNoReuse {\n\t\treturn\n\t}\n"},
	{"sync/pool.go", "func (p *Pool) Get() any {\n", "const simNoReuse = true\n\nfunc (p *Pool) Get() any {\n\tif simNoReuse {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"},
	// kernel-side data paths which bypass the system call wrappers
	{"internal/syscall/unix/copy_file_range_unix.go", ") (n int, err error) {\n", ") (n int, err error) {\n\tif rfd >= 1<<28 || wfd >= 1<<28 {\n\t\treturn 0, syscall.ENOSYS\n\t}\n"},
}

// the artificial "all I/O is ordered" edges of the race detector are removed
var stdRegexPatches = []struct {
	file, re, new string
	min           int
}{
	{"syscall/syscall_unix.go", `race\.Acquire\(unsafe\.Pointer\(&ioSync\)\)`, `_ = ioSync`, 2},
	{"syscall/syscall_unix.go", `race\.ReleaseMerge\(unsafe\.Pointer\(&ioSync\)\)`, `_ = ioSync`, 2},
}

// the runtime part of the simulator
const runtimeSim = `package runtime

import "unsafe"

var simRandOn bool
var simRandState uint64

// SimSeed makes all of the runtime's randomness a function of seed.
func SimSeed(seed uint64) { simRandState = seed; simRandOn = true }

//go:nosplit
func simRandNext() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	z := simRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimNumCPU overrides NumCPU.
var SimNumCPU int

var simAllocLeft int64
var simAllocGoid uint64
var simAllocSum int64

// SimAllocBudget limits the large allocations of the calling goroutine; 0 turns it off.
func SimAllocBudget(n int64) { simAllocGoid = getg().goid; simAllocSum = 0; simAllocLeft = n }

// SimAllocated returns the bytes of large allocations since SimAllocBudget.
func SimAllocated() int64 { return simAllocSum }

// SimAllocExceeded is the panic raised when the budget is exceeded.
type SimAllocExceeded struct{ Size uintptr }

func (SimAllocExceeded) RuntimeError() {}
func (e SimAllocExceeded) Error() string { return "simulator: allocation budget exceeded" }

func simAlloc(size uintptr) {
	gp := getg()
	if gp.goid != simAllocGoid || gp.m.curg != gp || gp.m.locks != 0 || gp.m.mallocing != 0 {
		return
	}
	simAllocSum += int64(size)
	if simAllocSum > simAllocLeft {
		simAllocLeft = 0
		panic(SimAllocExceeded{size})
	}
}

// SimGID identifies the calling goroutine.
func SimGID() uint64 { return getg().goid }

// SimG returns the calling goroutine.
func SimG() unsafe.Pointer { return unsafe.Pointer(getg()) }

// SimNewG creates a goroutine which does not run before SimSwitch/SimReady names it.
func SimNewG(f func()) unsafe.Pointer {
	fn := *(**funcval)(unsafe.Pointer(&f))
	gp := getg()
	pc := getcallerpcSim()
	var newg *g
	systemstack(func() {
		newg = newproc1(fn, gp, pc, true, waitReasonSleep)
	})
	return unsafe.Pointer(newg)
}

func getcallerpcSim() uintptr {
	var pcs [1]uintptr
	Callers(2, pcs[:])
	return pcs[0]
}

func simSwitchCommit(gp *g, to unsafe.Pointer) bool {
	goready((*g)(to), 0)
	return true
}

// SimSwitch parks the calling goroutine and lets "to" run.
func SimSwitch(to unsafe.Pointer) {
	gopark(simSwitchCommit, to, waitReasonSleep, traceBlockSleep, 1)
}

// SimReady lets "to" run; the caller must touch nothing shared afterwards.
func SimReady(to unsafe.Pointer) { goready((*g)(to), 1) }
`

// the system call seam
const syscallSim = `package syscall

// SimTable intercepts system calls; each function reports whether it handled the call.
type SimTable struct {
	Openat    func(dirfd int, path string, flags int, mode uint32) (fd int, err error, ok bool)
	Read      func(fd int, p []byte) (n int, err error, ok bool)
	Write     func(fd int, p []byte) (n int, err error, ok bool)
	Pread     func(fd int, p []byte, offset int64) (n int, err error, ok bool)
	Pwrite    func(fd int, p []byte, offset int64) (n int, err error, ok bool)
	Close     func(fd int) (err error, ok bool)
	Fstat     func(fd int, st *Stat_t) (err error, ok bool)
	Fstatat   func(dirfd int, path string, st *Stat_t, flags int) (err error, ok bool)
	Mkdirat   func(dirfd int, path string, mode uint32) (err error, ok bool)
	Unlinkat  func(dirfd int, path string, flags int) (err error, ok bool)
	Renameat  func(odir int, opath string, ndir int, npath string) (err error, ok bool)
	Seek      func(fd int, offset int64, whence int) (off int64, err error, ok bool)
	Ftruncate func(fd int, length int64) (err error, ok bool)
	Truncate  func(path string, length int64) (err error, ok bool)
	Fsync     func(fd int) (err error, ok bool)
	Fcntl     func(fd int, cmd int, arg int) (val int, err error, ok bool)
	Getdents  func(fd int, buf []byte) (n int, err error, ok bool)
	Chmodat   func(fd int, path string, mode uint32) (err error, ok bool)
	Access    func(dirfd int, path string, mode uint32) (err error, ok bool)
	Other     func(name string, fd int, path string) (err error, ok bool)
}

// SimHooks is consulted by every intercepted call when set.
var SimHooks *SimTable
`

type hook struct{ fn, code string }

// prologues of the generated system call wrappers
var syscallHooks = []hook{
	{"openat", "if fd, err, ok := SimHooks.Openat(dirfd, path, flags, mode); ok { return fd, err }"},
	{"read", "if n, err, ok := SimHooks.Read(fd, p); ok { return n, err }"},
	{"write", "if n, err, ok := SimHooks.Write(fd, p); ok { return n, err }"},
	{"pread", "if n, err, ok := SimHooks.Pread(fd, p, offset); ok { return n, err }"},
	{"pwrite", "if n, err, ok := SimHooks.Pwrite(fd, p, offset); ok { return n, err }"},
	{"Close", "if err, ok := SimHooks.Close(fd); ok { return err }"},
	{"Fstat", "if err, ok := SimHooks.Fstat(fd, stat); ok { return err }"},
	{"fstatat", "if err, ok := SimHooks.Fstatat(fd, path, stat, flags); ok { return err }"},
	{"Mkdirat", "if err, ok := SimHooks.Mkdirat(dirfd, path, mode); ok { return err }"},
	{"unlinkat", "if err, ok := SimHooks.Unlinkat(dirfd, path, flags); ok { return err }"},
	{"Renameat", "if err, ok := SimHooks.Renameat(olddirfd, oldpath, newdirfd, newpath); ok { return err }"},
	{"Seek", "if off, err, ok := SimHooks.Seek(fd, offset, whence); ok { return off, err }"},
	{"Ftruncate", "if err, ok := SimHooks.Ftruncate(fd, length); ok { return err }"},
	{"Truncate", "if err, ok := SimHooks.Truncate(path, length); ok { return err }"},
	{"Fsync", "if err, ok := SimHooks.Fsync(fd); ok { return err }"},
	{"fcntl", "if val, err, ok := SimHooks.Fcntl(fd, cmd, arg); ok { return val, err }"},
	{"Getdents", "if n, err, ok := SimHooks.Getdents(fd, buf); ok { return n, err }"},
	{"fchmodat", "if err, ok := SimHooks.Chmodat(dirfd, path, mode); ok { return err }"},
	{"Fchmod", "if err, ok := SimHooks.Chmodat(fd, \"\", mode); ok { return err }"},
	{"faccessat", "if err, ok := SimHooks.Access(dirfd, path, mode); ok { return err }"},
	{"faccessat2", "if err, ok := SimHooks.Access(dirfd, path, mode); ok { return err }"},
	{"linkat", "if err, ok := SimHooks.Other(\"linkat\", olddirfd, oldpath); ok { return err }"},
	{"symlinkat", "if err, ok := SimHooks.Other(\"symlinkat\", newdirfd, newpath); ok { return err }"},
	{"readlinkat", "if err, ok := SimHooks.Other(\"readlinkat\", dirfd, path); ok { return -1, err }"},
	{"utimensat", "if err, ok := SimHooks.Other(\"utimensat\", dirfd, path); ok { return err }"},
	{"Chdir", "if err, ok := SimHooks.Other(\"chdir\", -100, path); ok { return err }"},
	{"Dup", "if err, ok := SimHooks.Other(\"dup\", oldfd, \"\"); ok { return -1, err }"},
	{"Dup3", "if err, ok := SimHooks.Other(\"dup\", oldfd, \"\"); ok { return err }"},
}

// stdOverlay writes the patched standard-library files into dir and returns
// the overlay entries.
func stdOverlay(goroot, dir string) (map[string]string, error) {
	src := filepath.Join(goroot, "src")
	files := map[string][]byte{}
	load := func(f string) ([]byte, error) {
		if b, ok := files[f]; ok {
			return b, nil
		}
		b, err := os.ReadFile(filepath.Join(src, f))
		if err == nil {
			files[f] = b
		}
		return b, err
	}
	for _, p := range stdPatches {
		b, err := load(p.file)
		if err != nil {
			return nil, err
		}
		if n := bytes.Count(b, []byte(p.old)); n != 1 {
			return nil, fmt.Errorf("seam %s: %d matches for %q", p.file, n, p.old)
		}
		files[p.file] = bytes.Replace(b, []byte(p.old), []byte(p.new), 1)
	}
	for _, p := range stdRegexPatches {
		b, err := load(p.file)
		if err != nil {
			return nil, err
		}
		re := regexp.MustCompile(p.re)
		if n := len(re.FindAllIndex(b, -1)); n < p.min {
			return nil, fmt.Errorf("seam %s: %d matches for %q", p.file, n, p.re)
		}
		files[p.file] = re.ReplaceAll(b, []byte(p.new))
	}
	const zs = "syscall/zsyscall_linux_amd64.go"
	b, err := load(zs)
	if err != nil {
		return nil, err
	}
	text := string(b)
	for _, h := range syscallHooks {
		re := regexp.MustCompile(`(?m)^func ` + h.fn + `\(.*\{$`)
		loc := re.FindStringIndex(text)
		if loc == nil {
			return nil, fmt.Errorf("seam syscall.%s not found", h.fn)
		}
		text = text[:loc[1]] + "\n\tif SimHooks != nil {\n\t\t" + strings.ReplaceAll(strings.ReplaceAll(h.code, "{ return", "{\n\t\t\treturn"), " }", "\n\t\t}") + "\n\t}" + text[loc[1]:]
	}
	files[zs] = []byte(text)
	files["runtime/zz_sim.go"] = []byte(runtimeSim)
	files["syscall/zz_sim.go"] = []byte(syscallSim)
	res := map[string]string{}
	for f, b := range files {
		out := filepath.Join(dir, "std", strings.ReplaceAll(f, "/", "__"))
		if err := writeFile(out, b); err != nil {
			return nil, err
		}
		res[filepath.Join(src, f)] = out
	}
	return res, nil
}

func writeFile(name string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
		return err
	}
	return os.WriteFile(name, b, 0644)
}
