package rt

import (
	"os"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/scen"
)

type (
	File     = scen.File
	Fault    = scen.Fault
	Delivery = scen.Delivery
	Kern     = scen.Kern
)

const maxFaults = 64

const fdBase = 1 << 28
const maxFD = 2048

type node struct {
	path string
	data []byte
	n    int
	dir  bool
	ino  uint64
	next *node
	gone bool
}

type handle struct {
	n      *node
	flags  int
	pos    int64
	dirpos int
	path   string
}

var (
	faultSeen  [maxFaults]int
	faultFired [maxFaults]int
	failPaths  []string // operations which failed or were cut short, as "op path"
	kernOn     bool
	nodes      *node
	fds        [maxFD]*handle
	fdHigh     int
	nopen      int
	kern       Kern
	clock      int64
	wallJump   int64 // how far the wall clock was set forward or back
	inoNext    uint64
	readCalls  int
	eintrLeft  int
	eintrIdx   int
	chunkIdx   int
	pendEintr  bool
	hardErrs   int64
	lastHard   string
	sysCalls   int64
	ioHash     uint64
	written    int64
	output     int64
	stdout     []byte
	stderr     []byte
	finClosed  int
	opCounts   [nops]int64
	kindNames  []string
	kindCounts []int64
	baseTime   int64
	killing    bool // the process dies at the end of this call
	OnSyscall  func()
	totalClock int64
)

const (
	opOpen = iota
	opCreate
	opRead
	opPread
	opSeek
	opFstat
	opStat
	opClose
	opWrite
	opMkdir
	opUnlink
	opRename
	opTrunc
	opSync
	opDents
	opOther
	nops
)

var opNames = [nops]string{"open", "create", "read", "pread", "seek", "fstat", "stat", "close", "write", "mkdir", "unlink", "rename", "truncate", "fsync", "getdents", "other"}

var errnos = []struct {
	n string
	e syscall.Errno
}{
	{"EIO", syscall.EIO}, {"EACCES", syscall.EACCES}, {"ENOENT", syscall.ENOENT}, {"EMFILE", syscall.EMFILE},
	{"ENFILE", syscall.ENFILE}, {"EINTR", syscall.EINTR}, {"ENOSPC", syscall.ENOSPC}, {"EROFS", syscall.EROFS},
	{"EDQUOT", syscall.EDQUOT}, {"ESTALE", syscall.ESTALE}, {"ENOMEM", syscall.ENOMEM}, {"EPERM", syscall.EPERM},
	{"ENOTDIR", syscall.ENOTDIR}, {"EINVAL", syscall.EINVAL}, {"ENXIO", syscall.ENXIO}, {"EBADF", syscall.EBADF}, {"EFBIG", syscall.EFBIG}, {"EISDIR", syscall.EISDIR}, {"ETIMEDOUT", syscall.ETIMEDOUT}, {"ENAMETOOLONG", syscall.ENAMETOOLONG}, {"ELOOP", syscall.ELOOP},
}

//go:norace
func errnoOf(kind string) (syscall.Errno, bool) {
	for i := range errnos {
		if errnos[i].n == kind {
			return errnos[i].e, true
		}
	}
	return 0, false
}

//go:norace
func clean(p string) string {
	for len(p) > 2 && p[0] == '.' && p[1] == '/' {
		p = p[2:]
	}
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	return p
}

//go:norace
func hasSuffix(s, suf string) bool { return len(s) >= len(suf) && s[len(s)-len(suf):] == suf }

//go:norace
func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// real paths which are left to the real kernel
//
//go:norace
func passthrough(p string) bool {
	return hasPrefix(p, "/proc/") || hasPrefix(p, "/sys/") || hasPrefix(p, "/etc/") || hasPrefix(p, "/usr/") || hasPrefix(p, "/dev/") || hasPrefix(p, "/lib")
}

//go:norace
func find(p string) *node {
	p = clean(p)
	for n := nodes; n != nil; n = n.next {
		if !n.gone && n.path == p {
			return n
		}
	}
	return nil
}

//go:norace
func parentOf(p string) string {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	if len(p) > 0 && p[0] == '/' {
		return "/"
	}
	return "."
}

//go:norace
func addNode(p string, dir bool) *node {
	inoNext++
	n := &node{path: clean(p), dir: dir, ino: inoNext}
	if nodes == nil {
		nodes = n
		return n
	}
	l := nodes
	for l.next != nil {
		l = l.next
	}
	l.next = n
	return n
}

//go:norace
func (n *node) resize(size int) {
	if size > cap(n.data) {
		c := 2 * cap(n.data)
		if c < size {
			c = size
		}
		d := make([]byte, c)
		copy(d, n.data[:n.n])
		n.data = d
	}
	n.data = n.data[:cap(n.data)]
	for i := n.n; i < size; i++ {
		n.data[i] = 0
	}
	n.n = size
}

// SetKernel installs a fresh kernel state holding the given files.
//
//go:norace
func SetKernel(k Kern, files []File) {
	kern = k
	kern.Faults = append([]Fault(nil), k.Faults...)
	if len(kern.Faults) > maxFaults {
		kern.Faults = kern.Faults[:maxFaults]
	}
	for i := range faultSeen {
		faultSeen[i], faultFired[i] = 0, 0
	}
	failPaths = nil
	if kern.Tick == 0 {
		kern.Tick = 1000
	}
	if kern.Start == 0 {
		kern.Start = 1600000000
	}
	nodes, inoNext = nil, 1
	for i := range fds {
		fds[i] = nil
	}
	fdHigh, nopen = 0, 0
	totalClock += clock
	clock, wallJump = 0, 0
	readCalls, eintrIdx, eintrLeft, chunkIdx = 0, 0, 0, 0
	if len(k.Delivery.Eintr) > 0 {
		eintrLeft = k.Delivery.Eintr[0]
	}
	hardErrs, sysCalls, written, finClosed = 0, 0, 0, 0
	output = 0
	ioHash = 0xcbf29ce484222325
	stdout, stderr = nil, nil
	for i := range opCounts {
		opCounts[i] = 0
	}
	kindNames, kindCounts = nil, nil
	addNode(".", true)
	addNode("/", true)
	for _, f := range files {
		PutFile(f.Path, f.Data, f.Dir)
	}
	if syscall.SimHooks == nil {
		syscall.SimHooks = &table
		time.SimNow = simNow
		os.SimExit = simExit
	}
	kernOn = true
}

// PutFile creates or replaces a file directly (no system call is involved).
//
//go:norace
func PutFile(p string, data []byte, dir bool) {
	p = clean(p)
	for q := parentOf(p); q != "." && q != "/" && find(q) == nil; q = parentOf(q) {
		addNode(q, true)
	}
	n := find(p)
	if n == nil {
		n = addNode(p, dir)
	}
	n.data = make([]byte, len(data))
	copy(n.data, data)
	n.n = len(data)
}

// Files returns the contents of the file system.
//
//go:norace
func Files() []File {
	var res []File
	for n := nodes; n != nil; n = n.next {
		if n.gone || n.path == "." || n.path == "/" {
			continue
		}
		d := make([]byte, n.n)
		copy(d, n.data)
		res = append(res, File{Path: n.path, Data: d, Dir: n.dir})
	}
	return res
}

// OpenFDs is the number of open descriptors (closes by finalizers do not count).
//
//go:norace
func OpenFDs() int { return nopen }

// OpenPaths lists what is open.
//
//go:norace
func OpenPaths() (res []string) {
	for i := 0; i < fdHigh; i++ {
		if fds[i] != nil {
			res = append(res, fds[i].path)
		}
	}
	return
}

// HardErrors counts the failures delivered so far (interruptions excluded).
//
//go:norace
func HardErrors() int64 { return hardErrs }

// LastHard names the last failing operation.
//
//go:norace
func LastHard() string { return lastHard }

// SysCalls counts the intercepted system calls.
//
//go:norace
func SysCalls() int64 { return sysCalls }

// IOHash identifies the sequence of operations and answers.
//
//go:norace
func IOHash() uint64 { return ioHash }

// Clock is the simulated time in ns since the kernel was installed.
//
//go:norace
func Clock() int64 { return clock }

// Stdout and Stderr return what the program wrote there.
//
//go:norace
func Stdout() []byte { return stdout }

//go:norace
func Stderr() []byte { return stderr }

// FaultCounts returns, per kind, how often faults fired.
//
//go:norace
func FaultCounts() map[string]int64 {
	m := map[string]int64{}
	for i, n := range kindNames {
		m[n] += kindCounts[i]
	}
	return m
}

// OpCounts returns how often each operation was seen.
//
//go:norace
func OpCounts() map[string]int64 {
	m := map[string]int64{}
	for i, n := range opNames {
		if opCounts[i] > 0 {
			m[n] = opCounts[i]
		}
	}
	return m
}

// Failures lists the operations which failed or were cut short, as "op path".
//
//go:norace
func Failures() []string { return failPaths }

// FaultFired reports how often the i-th fault of the plan struck.
//
//go:norace
func FaultFired(i int) int { return faultFired[i] }

var failOff int64 // position of the pread in progress

//go:norace
func itoa(v int64) string {
	// (converting a byte array would be an access the race detector sees)
	s := ""
	for {
		d := v % 10
		s = "0123456789"[d:d+1] + s
		v /= 10
		if v == 0 {
			return s
		}
	}
}

//go:norace
func failed(op int, path string) {
	n := len(failPaths)
	if n < 1000 {
		fp := make([]string, n+1)
		for i := range failPaths {
			fp[i] = failPaths[i]
		}
		fp[n] = opNames[op] + " " + path
		if op == opPread {
			fp[n] += " @" + itoa(failOff)
		}
		failPaths = fp
	}
}

//go:norace
func count(op int, kind string) {
	name := opNames[op] + ":" + kind
	for i := range kindNames {
		if kindNames[i] == name {
			kindCounts[i]++
			return
		}
	}
	nn := make([]string, len(kindNames)+1)
	for i := range kindNames { // copy() would be an access the race detector sees
		nn[i] = kindNames[i]
	}
	nn[len(kindNames)] = name
	nc := make([]int64, len(kindCounts)+1)
	for i := range kindCounts {
		nc[i] = kindCounts[i]
	}
	nc[len(kindCounts)] = 1
	kindNames, kindCounts = nn, nc
}

//go:norace
func iomix(a, b uint64) {
	ioHash ^= a*31 + b
	ioHash *= 0x100000001b3
	ioHash ^= ioHash >> 31
}

// mine reports whether the calling goroutine belongs to the simulation.
//
//go:norace
func mine() bool {
	if !kernOn {
		return false
	}
	if active && cur != nil && runtime.SimGID() != cur.gid {
		return false
	}
	return true
}

// enter accounts for a system call and returns the error to deliver, if any,
// and a size limit (-1 = none).
//
//go:norace
func enter(op int, path string) (err error, limit int) {
	Hot()
	sysCalls++
	opCounts[op]++
	clock += kern.Tick
	limit = -1
	for i := range kern.Faults {
		f := &kern.Faults[i]
		if f.Op != opNames[op] && f.Op != "any" {
			continue
		}
		if f.Path != "" && !hasSuffix(path, f.Path) {
			continue
		}
		k := faultSeen[i]
		faultSeen[i]++
		c := f.Count
		if c == 0 {
			c = 1
		}
		if k < f.Nth || (c > 0 && k >= f.Nth+c) {
			continue
		}
		if e, ok := errnoOf(f.Kind); ok {
			if e == syscall.EINTR && op == opClose {
				continue
			}
			faultFired[i]++
			count(op, f.Kind)
			if e != syscall.EINTR {
				failed(op, path)
				hardErrs++
				lastHard = opNames[op] + " " + f.Kind
			}
			iomix(uint64(op), uint64(e))
			return e, limit
		}
		switch f.Kind {
		case "short":
			if op == opRead || op == opPread || op == opWrite {
				faultFired[i]++
				count(op, f.Kind)
				limit = int(f.Arg)
			}
		case "shrink":
			if n := find(path); n != nil && int(f.Arg) < n.n {
				faultFired[i]++
				count(op, f.Kind)
				n.n = int(f.Arg)
			}
		case "jump":
			faultFired[i]++
			count(op, f.Kind)
			wallJump += f.Arg
		case "stall":
			faultFired[i]++
			count(op, f.Kind)
			clock += f.Arg
		case "kill":
			// the process dies in this call; a write leaves Arg bytes behind
			if !active {
				continue
			}
			faultFired[i]++
			count(op, f.Kind)
			if op == opWrite && f.Arg > 0 {
				limit, killing = int(f.Arg), true
				continue
			}
			account()
			finish("killed")
		case "replace":
			// the file is replaced by garbage of the same length
			if n := find(path); n != nil {
				faultFired[i]++
				count(op, f.Kind)
				for i := int(f.Arg); i < n.n; i++ {
					n.data[i] ^= 0x5a
				}
			}
		}
	}
	iomix(uint64(op), 0)
	return nil, limit
}

// produced accounts for output; too much of it never ends.
//
//go:norace
func produced(n int) {
	output += int64(n)
	if kern.MaxOut > 0 && output > kern.MaxOut && active {
		account()
		finish("hang")
	}
}

// deliver shapes a read of up to n bytes.
//
//go:norace
func deliver(op, n, limit int) (int, error) {
	if len(kern.Delivery.Eintr) > 0 {
		eintrLeft--
		if eintrLeft < 0 {
			eintrIdx = (eintrIdx + 1) % len(kern.Delivery.Eintr)
			eintrLeft = kern.Delivery.Eintr[eintrIdx]
			count(op, "EINTR")
			iomix(99, uint64(n))
			return 0, syscall.EINTR
		}
	}
	if n > 1 && len(kern.Delivery.Chunks) > 0 {
		c := kern.Delivery.Chunks[chunkIdx]
		chunkIdx = (chunkIdx + 1) % len(kern.Delivery.Chunks)
		if c > 0 && c < n {
			n = c
			count(op, "short")
		}
	}
	if limit >= 0 && n > limit {
		n = limit
		if n == 0 && op != opWrite {
			n = 1
		}
	}
	iomix(uint64(op), uint64(n))
	return n, nil
}

//go:norace
func getFD(fd int) *handle {
	if i := fd - fdBase; i >= 0 && i < maxFD {
		return fds[i]
	}
	return nil
}

var table = syscall.SimTable{
	Openat: kOpenat, Read: kRead, Write: kWrite, Pread: kPread, Pwrite: kPwrite, Close: kClose, Fstat: kFstat,
	Fstatat: kFstatat, Mkdirat: kMkdirat, Unlinkat: kUnlinkat, Renameat: kRenameat, Seek: kSeek, Ftruncate: kFtruncate,
	Truncate: kTruncate, Fsync: kFsync, Fcntl: kFcntl, Getdents: kGetdents, Chmodat: kChmodat, Access: kAccess, Other: kOther,
}

//go:norace
func kOpenat(dirfd int, path string, flags int, mode uint32) (int, error, bool) {
	if !mine() || passthrough(path) {
		return 0, nil, false
	}
	path = clean(path)
	op := opOpen
	if flags&(syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		op = opCreate
	}
	if err, _ := enter(op, path); err != nil {
		return -1, err, true
	}
	n := find(path)
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT, true
		}
		if p := find(parentOf(path)); p == nil || !p.dir {
			return -1, syscall.ENOENT, true
		}
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST, true
		}
		if n.dir && op == opCreate {
			return -1, syscall.EISDIR, true
		}
	}
	i := 0
	for i < maxFD && fds[i] != nil {
		i++
	}
	if i == maxFD || (kern.MaxFDs > 0 && nopen >= kern.MaxFDs) {
		count(op, "EMFILE-limit")
		failed(op, path)
		hardErrs++
		lastHard = "open EMFILE"
		return -1, syscall.EMFILE, true
	}
	if n == nil {
		n = addNode(path, false)
	}
	if flags&syscall.O_TRUNC != 0 && !n.dir {
		n.n = 0
	}
	fds[i] = &handle{n: n, flags: flags, path: path}
	nopen++
	if i >= fdHigh {
		fdHigh = i + 1
	}
	return fdBase + i, nil, true
}

//go:norace
func kRead(fd int, p []byte) (int, error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		if fd >= fdBase {
			return -1, syscall.EBADF, true
		}
		return 0, nil, false
	}
	err, limit := enter(opRead, h.path)
	if err != nil {
		return -1, err, true
	}
	if h.flags&syscall.O_WRONLY != 0 {
		return -1, syscall.EBADF, true
	}
	if h.n.dir {
		return -1, syscall.EISDIR, true
	}
	n := len(p)
	if av := h.n.n - int(h.pos); n > av {
		n = av
	}
	if n <= 0 {
		if _, err := deliver(opRead, 0, -1); err != nil {
			return -1, err, true
		}
		return 0, nil, true
	}
	n, err = deliver(opRead, n, limit)
	if err != nil {
		return -1, err, true
	}
	copy(p[:n], h.n.data[h.pos:])
	h.pos += int64(n)
	return n, nil, true
}

//go:norace
func kPread(fd int, p []byte, off int64) (int, error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		if fd >= fdBase {
			return -1, syscall.EBADF, true
		}
		return 0, nil, false
	}
	failOff = off
	err, limit := enter(opPread, h.path)
	if err != nil {
		return -1, err, true
	}
	if off < 0 {
		return -1, syscall.EINVAL, true
	}
	if h.n.dir {
		return -1, syscall.EISDIR, true
	}
	n := len(p)
	if off >= int64(h.n.n) {
		n = 0
	} else if av := h.n.n - int(off); n > av {
		n = av
	}
	n, err = deliver(opPread, n, limit)
	if err != nil {
		return -1, err, true
	}
	if n > 0 {
		copy(p[:n], h.n.data[off:])
	}
	return n, nil, true
}

//go:norace
func kWrite(fd int, p []byte) (int, error, bool) {
	if fd == 1 || fd == 2 {
		if !mine() || !active {
			return 0, nil, false
		}
		path := "<stdout>"
		if fd == 2 {
			path = "<stderr>"
		}
		err, limit := enter(opWrite, path)
		if err != nil {
			return -1, err, true
		}
		n := len(p)
		if limit >= 0 && n > limit {
			n = limit
		}
		produced(n)
		if fd == 1 {
			stdout = grow(stdout, p[:n])
		} else {
			stderr = grow(stderr, p[:n])
		}
		if killing {
			killing = false
			account()
			finish("killed")
		}
		return n, nil, true
	}
	h := getFD(fd)
	if h == nil || !mine() {
		if fd >= fdBase {
			return -1, syscall.EBADF, true
		}
		return 0, nil, false
	}
	if h.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return -1, syscall.EBADF, true
	}
	n, err := doWrite(h, p, -1)
	return n, err, true
}

//go:norace
func doWrite(h *handle, p []byte, at int64) (int, error) {
	err, limit := enter(opWrite, h.path)
	if err != nil {
		return -1, err
	}
	n := len(p)
	if limit >= 0 && n > limit {
		n = limit
	}
	pos := h.pos
	if at >= 0 {
		pos = at
	} else if h.flags&syscall.O_APPEND != 0 {
		pos = int64(h.n.n)
	}
	if kern.DiskFree > 0 && hasPrefix(h.path, kern.DiskDir) && !killing {
		if free := kern.DiskFree - written; int64(n) > free {
			if free <= 0 {
				count(opWrite, "ENOSPC-full")
				failed(opWrite, h.path)
				hardErrs++
				lastHard = "write ENOSPC"
				return -1, syscall.ENOSPC
			}
			n = int(free)
			count(opWrite, "short-full")
			failed(opWrite, h.path) // what follows does not fit
		}
	}
	produced(n)
	if int(pos)+n > h.n.n {
		h.n.resize(int(pos) + n)
	}
	copy(h.n.data[pos:], p[:n])
	if hasPrefix(h.path, kern.DiskDir) {
		written += int64(n)
	}
	if at < 0 {
		h.pos = pos + int64(n)
	}
	iomix(opWrite, uint64(n))
	if killing {
		killing = false
		account()
		finish("killed")
	}
	return n, nil
}

//go:norace
func grow(b, p []byte) []byte {
	if len(b)+len(p) > cap(b) {
		d := make([]byte, len(b), 2*(len(b)+len(p))+256)
		copy(d, b)
		b = d
	}
	m := len(b)
	b = b[:m+len(p)]
	copy(b[m:], p)
	return b
}

//go:norace
func kPwrite(fd int, p []byte, off int64) (int, error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		if fd >= fdBase {
			return -1, syscall.EBADF, true
		}
		return 0, nil, false
	}
	n, err := doWrite(h, p, off)
	return n, err, true
}

//go:norace
func kClose(fd int) (error, bool) {
	h := getFD(fd)
	if h == nil {
		if fd >= fdBase {
			if mine() {
				sysCalls++
				opCounts[opClose]++
			}
			return syscall.EBADF, true
		}
		return nil, false
	}
	if !mine() {
		// a finalizer: the descriptor was leaked, and stays leaked here
		finClosed++
		return nil, true
	}
	err, _ := enter(opClose, h.path)
	// like Linux: the descriptor is gone even if close reports an error
	fds[fd-fdBase] = nil
	nopen--
	return err, true
}

//go:norace
func fillStat(n *node, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino = n.ino
	st.Nlink = 1
	st.Size = int64(n.n)
	st.Blksize = 4096
	st.Blocks = (int64(n.n) + 511) / 512
	st.Mode = syscall.S_IFREG | 0644
	if n.dir {
		st.Mode = syscall.S_IFDIR | 0755
		st.Size = 4096
	}
	st.Mtim.Sec = kern.Start
}

//go:norace
func kFstat(fd int, st *syscall.Stat_t) (error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		if fd >= fdBase {
			return syscall.EBADF, true
		}
		return nil, false
	}
	if err, _ := enter(opFstat, h.path); err != nil {
		return err, true
	}
	fillStat(h.n, st)
	return nil, true
}

//go:norace
func kFstatat(dirfd int, path string, st *syscall.Stat_t, flags int) (error, bool) {
	if !mine() || passthrough(path) {
		return nil, false
	}
	path = clean(path)
	if err, _ := enter(opStat, path); err != nil {
		return err, true
	}
	n := find(path)
	if n == nil {
		return syscall.ENOENT, true
	}
	fillStat(n, st)
	return nil, true
}

//go:norace
func kMkdirat(dirfd int, path string, mode uint32) (error, bool) {
	if !mine() {
		return nil, false
	}
	path = clean(path)
	if err, _ := enter(opMkdir, path); err != nil {
		return err, true
	}
	if find(path) != nil {
		return syscall.EEXIST, true
	}
	p := find(parentOf(path))
	if p == nil {
		return syscall.ENOENT, true
	}
	if !p.dir {
		return syscall.ENOTDIR, true
	}
	addNode(path, true)
	return nil, true
}

//go:norace
func kUnlinkat(dirfd int, path string, flags int) (error, bool) {
	if !mine() || passthrough(path) {
		return nil, false
	}
	path = clean(path)
	if err, _ := enter(opUnlink, path); err != nil {
		return err, true
	}
	n := find(path)
	if n == nil {
		return syscall.ENOENT, true
	}
	if n.dir && flags&0x200 == 0 {
		return syscall.EISDIR, true
	}
	if !n.dir && flags&0x200 != 0 {
		return syscall.ENOTDIR, true
	}
	n.gone = true
	return nil, true
}

//go:norace
func kRenameat(od int, op string, nd int, np string) (error, bool) {
	if !mine() {
		return nil, false
	}
	op, np = clean(op), clean(np)
	if err, _ := enter(opRename, op); err != nil {
		return err, true
	}
	n := find(op)
	if n == nil {
		return syscall.ENOENT, true
	}
	if p := find(parentOf(np)); p == nil {
		return syscall.ENOENT, true
	}
	if t := find(np); t != nil && t != n {
		if t.dir {
			return syscall.EISDIR, true
		}
		t.gone = true
	}
	n.path = np
	return nil, true
}

//go:norace
func kSeek(fd int, off int64, whence int) (int64, error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		if fd >= fdBase {
			return -1, syscall.EBADF, true
		}
		return 0, nil, false
	}
	if err, _ := enter(opSeek, h.path); err != nil {
		return -1, err, true
	}
	switch whence {
	case 0:
	case 1:
		off += h.pos
	case 2:
		off += int64(h.n.n)
	default:
		return -1, syscall.EINVAL, true
	}
	if off < 0 {
		return -1, syscall.EINVAL, true
	}
	h.pos = off
	return off, nil, true
}

//go:norace
func kFtruncate(fd int, size int64) (error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		return syscall.EBADF, fd >= fdBase
	}
	if err, _ := enter(opTrunc, h.path); err != nil {
		return err, true
	}
	h.n.resize(int(size))
	return nil, true
}

//go:norace
func kTruncate(path string, size int64) (error, bool) {
	if !mine() {
		return nil, false
	}
	if err, _ := enter(opTrunc, clean(path)); err != nil {
		return err, true
	}
	n := find(path)
	if n == nil {
		return syscall.ENOENT, true
	}
	n.resize(int(size))
	return nil, true
}

//go:norace
func kFsync(fd int) (error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		return syscall.EBADF, fd >= fdBase
	}
	err, _ := enter(opSync, h.path)
	return err, true
}

//go:norace
func kFcntl(fd, cmd, arg int) (int, error, bool) {
	if fd >= fdBase {
		return -1, syscall.EINVAL, true
	}
	return 0, nil, false
}

//go:norace
func kGetdents(fd int, buf []byte) (int, error, bool) {
	h := getFD(fd)
	if h == nil || !mine() {
		return -1, syscall.EBADF, fd >= fdBase
	}
	if err, _ := enter(opDents, h.path); err != nil {
		return -1, err, true
	}
	pre := h.n.path + "/"
	if h.n.path == "." {
		pre = ""
	}
	k, used := 0, 0
	for n := nodes; n != nil; n = n.next {
		if n.gone || n.path == "." || n.path == "/" || !hasPrefix(n.path, pre) {
			continue
		}
		name := n.path[len(pre):]
		sub := false
		for i := range name {
			if name[i] == '/' {
				sub = true
			}
		}
		if sub {
			continue
		}
		if k < h.dirpos {
			k++
			continue
		}
		l := (19 + len(name) + 1 + 7) &^ 7
		if used+l > len(buf) {
			break
		}
		b := buf[used : used+l]
		for i := range b {
			b[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&b[0])) = n.ino
		*(*uint16)(unsafe.Pointer(&b[16])) = uint16(l)
		b[18] = 8
		if n.dir {
			b[18] = 4
		}
		copy(b[19:], name)
		used += l
		k++
		h.dirpos++
	}
	return used, nil, true
}

//go:norace
func kChmodat(fd int, path string, mode uint32) (error, bool) {
	if !mine() || (path == "" && fd < fdBase) || passthrough(path) {
		return nil, false
	}
	err, _ := enter(opOther, path)
	return err, true
}

//go:norace
func kAccess(dirfd int, path string, mode uint32) (error, bool) {
	if !mine() || passthrough(path) {
		return nil, false
	}
	if err, _ := enter(opStat, clean(path)); err != nil {
		return err, true
	}
	if find(path) == nil {
		return syscall.ENOENT, true
	}
	return nil, true
}

//go:norace
func kOther(name string, fd int, path string) (error, bool) {
	if !mine() || (path == "" && fd < fdBase) || (path != "" && passthrough(path)) {
		return nil, false
	}
	if err, _ := enter(opOther, clean(path)); err != nil {
		return err, true
	}
	if name == "readlinkat" {
		return syscall.EINVAL, true
	}
	if name == "utimensat" {
		return nil, true
	}
	return syscall.EPERM, true
}

//go:norace
func simNow() (int64, int32, bool) {
	if !kernOn {
		return 0, 0, false
	}
	if active && runtime.SimGID() == cur.gid {
		clock += 100
	}
	t := clock + wallJump
	if t < 0 {
		return kern.Start + t/1e9 - 1, int32(t%1e9 + 1e9 - 1), true
	}
	return kern.Start + t/1e9, int32(t % 1e9), true
}

//go:norace
func simExit(code int) {
	if active && runtime.SimGID() == cur.gid {
		account()
		exitCode = code
		finish("exit")
	}
}
