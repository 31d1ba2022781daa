// P13: a failed write is reported and recoverable.
package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Op of a history. Fault starts (and replaces) the refusal of a resource.
type Op struct {
	K    string // put, get, latest, fault, clear, reopen
	M    int
	Dt   int64
	Len  int
	Fill byte
	F    string
	N    int
}

type Case struct {
	Cfg store.Cfg
	Ops []Op
}

var metrics = []string{"a", "a.b", "c.d"}

// unprivileged is set when the process could give up root, so that directory
// permissions apply to it.
var unprivileged bool

func setup(dir string) {
	signal.Ignore(syscall.SIGXFSZ)
	// give up root for good: the scratch directory becomes ours
	scratch := filepath.Dir(dir)
	small = mountSmall(dir)
	if os.Getuid() != 0 || os.Chmod(scratch, 0711) != nil || os.Chown(dir, 65534, 65534) != nil {
		unprivileged = os.Getuid() != 0
		return
	}
	if syscall.Setgid(65534) == nil && syscall.Setuid(65534) == nil {
		unprivileged = true
	}
	if os.WriteFile(filepath.Join(dir, "probe"), nil, 0644) != nil {
		fmt.Fprintln(os.Stderr, "the scratch directory is unusable as another user")
		os.Exit(3)
	}
	// parent death signal is lost with the change of identity
	syscall.RawSyscall(syscall.SYS_PRCTL, 1, uintptr(syscall.SIGKILL), 0)
}

// small is the descriptor of a directory on a file system of its own with little
// room, or -1 when there is none.
var small = -1

const (
	smallBytes  = 8 << 20
	smallInodes = 256
)

// mountSmall has a helper mount a small file system in a namespace of its own
// and hand over a descriptor of its root, through which it can be used.
func mountSmall(dir string) int {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	if err != nil {
		return -1
	}
	ours, theirs := os.NewFile(uintptr(fds[0]), "ours"), os.NewFile(uintptr(fds[1]), "theirs")
	syscall.CloseOnExec(fds[0])
	defer theirs.Close()
	at := filepath.Join(dir, "small")
	if os.Mkdir(at, 0777) != nil {
		return -1
	}
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "P13_MOUNT="+at)
	cmd.ExtraFiles = []*os.File{theirs}
	ids := []syscall.SysProcIDMap{{ContainerID: 0, HostID: 0, Size: 1}, {ContainerID: 65534, HostID: 65534, Size: 1}}
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS, UidMappings: ids, GidMappings: ids, Pdeathsig: syscall.SIGKILL,
	}
	runtime.LockOSThread() // for good: the helper ends with this thread
	if os.Getuid() != 0 || cmd.Start() != nil {
		return -1
	}
	theirs.Close()
	oob := make([]byte, 64)
	_, n, _, _, err := syscall.Recvmsg(fds[0], make([]byte, 1), oob, syscall.MSG_CMSG_CLOEXEC)
	if err != nil || n == 0 {
		return -1
	}
	msgs, err := syscall.ParseSocketControlMessage(oob[:n])
	if err != nil || len(msgs) == 0 {
		return -1
	}
	got, err := syscall.ParseUnixRights(&msgs[0])
	if err != nil || len(got) == 0 {
		return -1
	}
	keepOurs = ours
	return got[0]
}

var keepOurs *os.File

// helper mounts, hands over and waits for the end of the other side.
func helper(at string) {
	err := syscall.Mount("none", at, "tmpfs", 0, fmt.Sprintf("size=%d,nr_inodes=%d,mode=0777", smallBytes, smallInodes))
	if err != nil {
		os.Exit(1)
	}
	fd, err := syscall.Open(at, syscall.O_RDONLY|syscall.O_DIRECTORY, 0)
	if err != nil || syscall.Sendmsg(3, []byte{1}, syscall.UnixRights(fd), nil, 0) != nil {
		os.Exit(1)
	}
	syscall.Read(3, make([]byte, 1))
	os.Exit(0)
}

func gen(t *rapid.T) Case {
	c := Case{Cfg: store.GenCfg(t, store.GenOpts{MaxCap: 4, MaxFiles: 3})}
	n := rapid.IntRange(4, 40).Draw(t, "nops")
	for i := 0; i < n; i++ {
		o := Op{K: rapid.SampledFrom([]string{"put", "put", "put", "put", "put", "put", "put", "put", "get", "latest", "fault", "fault", "clear", "reopen"}).Draw(t, "k")}
		o.M = rapid.IntRange(0, len(metrics)-1).Draw(t, "m")
		switch o.K {
		case "put":
			o.Dt = int64(rapid.IntRange(1, 20).Draw(t, "dt"))
			if rapid.IntRange(0, 9).Draw(t, "late") == 9 {
				o.Dt = -o.Dt
			}
			o.Len = store.GenLen(t, c.Cfg, true)
			o.Fill = rapid.Byte().Draw(t, "fill")
		case "get":
			o.N = rapid.IntRange(0, 100).Draw(t, "n")
		case "fault":
			o.N = rapid.IntRange(0, 6).Draw(t, "left")
			o.F = rapid.SampledFrom([]string{"fsize", "nospace", "nospace", "nospace", "noinodes", "nofile", "nofile", "readonly", "readonly", "notdir"}).Draw(t, "f")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func clone(m *store.MMetric) *store.MMetric {
	o := &store.MMetric{}
	for _, f := range m.Files {
		g := *f
		g.Vals = append([]store.Val(nil), f.Vals...)
		o.Files = append(o.Files, &g)
	}
	return o
}

type state struct {
	x     *vkit.Ctx
	c     Case
	dir   string
	db    *store.DB
	cands map[string][]*store.MMetric // what each metric may hold
	end   map[string]int64
	fault string
	undo  func()
	// statistics
	failed, ambiguous, recovered int
}

func (s *state) start(f string, left int) {
	s.clear()
	if small < 0 && (f == "nospace" || f == "noinodes") {
		f = "fsize"
	}
	switch f {
	case "nospace":
		// something else takes the space, all but a few pages
		var st syscall.Statfs_t
		vkit.Must(syscall.Fstatfs(small, &st))
		p := fmt.Sprintf("/proc/self/fd/%d/ballast", small)
		b, err := os.Create(p)
		vkit.Must(err)
		if n := (int64(st.Bavail) - int64(left)) * int64(st.Bsize); n > 0 {
			vkit.Must(syscall.Fallocate(int(b.Fd()), 0, 0, n))
		}
		b.Close()
		s.undo = func() { vkit.Must(os.Remove(p)) }
	case "noinodes":
		d := fmt.Sprintf("/proc/self/fd/%d/many", small)
		vkit.Must(os.Mkdir(d, 0755))
		var made []string
		for {
			p := fmt.Sprintf("%s/%d", d, len(made))
			b, err := os.Create(p)
			if err != nil {
				break
			}
			b.Close()
			made = append(made, p)
		}
		for k := 0; k < left/2 && len(made) > 0; k++ {
			vkit.Must(os.Remove(made[len(made)-1]))
			made = made[:len(made)-1]
		}
		s.undo = func() { vkit.Must(os.RemoveAll(d)) }
	case "fsize":
		var old syscall.Rlimit
		vkit.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		lim := old
		lim.Cur = uint64(s.c.Cfg.Size * (s.c.Cfg.Cap + 1) / 2)
		vkit.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
		s.undo = func() { vkit.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
	case "nofile":
		var old syscall.Rlimit
		vkit.Must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
		f, err := os.Open("/dev/null")
		vkit.Must(err)
		lim := old
		lim.Cur = uint64(f.Fd())
		f.Close()
		vkit.Must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
		s.undo = func() { vkit.Must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)) }
	case "readonly":
		if !unprivileged {
			return
		}
		set := func(mode os.FileMode) func() {
			var dirs []string
			filepath.Walk(s.dir, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.IsDir() {
					dirs = append(dirs, p)
				}
				return nil
			})
			for _, d := range dirs {
				vkit.Must(os.Chmod(d, mode))
			}
			return nil
		}
		set(0555)
		s.undo = func() { set(0755) }
	case "notdir":
		// something else sits where the directories of two metrics would go
		var made []string
		for _, d := range []string{"a", "c"} {
			p := filepath.Join(s.dir, d)
			if _, err := os.Lstat(p); err == nil {
				continue
			}
			vkit.Must(os.WriteFile(p, []byte("in the way"), 0644))
			made = append(made, p)
		}
		if len(made) == 0 {
			return
		}
		s.undo = func() {
			for _, p := range made {
				vkit.Must(os.Remove(p))
			}
		}
	}
	s.fault = f
	s.x.Label("fault " + f)
}

func (s *state) clear() {
	if s.undo != nil {
		s.undo()
		s.undo = nil
	}
	s.fault = ""
}

// put queues a value; the answer must come.
func (s *state) put(o Op) error {
	m := metrics[o.M]
	v := store.Val{End: s.end[m] + o.Dt, Data: store.Payload(o.Len, o.Fill)}
	if v.End < 1 {
		v.End = 1
	}
	v.Start = v.End - 1
	type res struct {
		ok  bool
		err error
	}
	ch := make(chan res, 2)
	var calls int32
	qerr := s.db.DB.Queue(context.Background(), m, v.Start, v.End, v.Data, func(ok bool, err error) {
		atomic.AddInt32(&calls, 1)
		ch <- res{ok, err}
	})
	if qerr != nil {
		return fmt.Errorf("Queue: %v", qerr)
	}
	r := <-ch
	if r.ok && r.err != nil {
		return fmt.Errorf("reported both stored and failed: %v", r.err)
	}
	cands := s.cands[m]
	if len(cands) == 0 {
		cands = []*store.MMetric{{}}
	}
	var next []*store.MMetric
	var wanted []string
	for _, cm := range cands {
		n := clone(cm)
		out, rotated, _ := n.Write(s.c.Cfg, v)
		n.Dropped = nil
		switch {
		case r.ok:
			if out == store.Stored {
				next = append(next, n)
			}
		case r.err == nil:
			if out == store.NotLater {
				next = append(next, cm)
			}
		case out == store.TooLarge:
			next = append(next, cm)
		case s.fault != "":
			// the write failed; it may have discarded the oldest file already
			next = append(next, cm)
			if out == store.Stored && rotated {
				r := clone(cm)
				r.Files = r.Files[1:]
				next = append(next, r)
			}
		}
		wanted = append(wanted, fmt.Sprint([]string{"stored", "not later", "too large"}[out]))
	}
	if len(next) == 0 {
		return fmt.Errorf("write of %v under fault %q answered ok=%v err=%v, expected %v", v, s.fault, r.ok, r.err, wanted)
	}
	s.cands[m] = next
	if r.ok {
		s.end[m] = v.End
		if s.fault == "" && s.failed > 0 {
			s.recovered++
		}
	} else if r.err != nil && s.fault != "" {
		s.failed++
		if s.fault == "fsize" || s.fault == "nospace" || s.fault == "noinodes" {
			if p, n := leftover(s.dir); p != "" {
				return fmt.Errorf("write of %v failed (%v) and left %s of %d bytes behind", v, r.err, p, n)
			}
		}
		if len(next) > 1 {
			s.ambiguous++
		}
	}
	return nil
}

// leftover finds a file that holds no values.
func leftover(dir string) (path string, size int64) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && store.FileNum(p) < 0 {
			path, size = p, fi.Size()
		}
		return nil
	})
	return path, size
}

// get compares a query and narrows down the candidates.
func (s *state) get(m string, q int64) error {
	cands := s.cands[m]
	got, err := s.db.Get(m, q, -1, nil)
	if len(cands) == 0 || len(cands[0].Files) == 0 {
		if len(got) > 0 {
			return fmt.Errorf("%q holds %v, nothing was stored", m, got)
		}
		return nil
	}
	if err != nil {
		// without descriptors nothing can be opened
		if s.fault == "nofile" {
			return nil
		}
		return fmt.Errorf("query %q under fault %q: %v", m, s.fault, err)
	}
	var next []*store.MMetric
	var why error
	for _, c := range cands {
		if e := store.SameVals(got, c.Query(q)); e != nil {
			why = e
		} else {
			next = append(next, c)
		}
	}
	if len(next) == 0 {
		return fmt.Errorf("query %q before %d: %v", m, q, why)
	}
	s.cands[m] = next
	return nil
}

func run(x *vkit.Ctx, c Case) error {
	top := x.TempDir()
	if small >= 0 {
		top = fmt.Sprintf("/proc/self/fd/%d/case", small)
		vkit.Must(os.Mkdir(top, 0755))
		defer func() { vkit.Must(os.RemoveAll(top)) }()
	}
	dir := filepath.Join(top, "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	s := &state{x: x, c: c, dir: dir, cands: map[string][]*store.MMetric{}, end: map[string]int64{}}
	s.db = store.Open(dir, c.Cfg)
	defer func() {
		s.clear()
		s.db.Close()
	}()
	for i, o := range c.Ops {
		err := func() error {
			switch o.K {
			case "put":
				return s.put(o)
			case "get":
				m := metrics[o.M]
				q := int64(1<<63 - 1)
				if o.N > 0 && s.end[m] > 0 {
					q = s.end[m]*int64(o.N)/100 + 1
				}
				return s.get(m, q)
			case "latest":
				v, err := s.db.Latest(metrics[o.M], nil)
				if err != nil {
					if s.fault == "" && len(s.cands[metrics[o.M]]) > 0 && len(s.cands[metrics[o.M]][0].Files) > 0 {
						return fmt.Errorf("latest: %v", err)
					}
					return nil
				}
				for _, cm := range s.cands[metrics[o.M]] {
					if nv, ok := cm.Newest(); ok == (v.End != 0) && (!ok || nv.Eq(v)) {
						return nil
					}
				}
				if len(s.cands[metrics[o.M]]) > 0 || v.End != 0 {
					return fmt.Errorf("latest is %v", v)
				}
			case "fault":
				s.start(o.F, o.N)
			case "clear":
				s.clear()
			case "reopen":
				s.clear() // the harness needs its own resources here
				if err := s.db.Close(); err != nil {
					return fmt.Errorf("shutdown: %v", err)
				}
				s.db = store.Open(dir, c.Cfg)
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("step %d %+v: %v", i, o, err)
		}
	}
	// once everything is available again nothing is missing or in the way
	s.clear()
	for mi, m := range metrics {
		if err := s.get(m, 1<<63-1); err != nil {
			return fmt.Errorf("after the faults: %v", err)
		}
		for k := 0; k < 2; k++ {
			if err := s.put(Op{M: mi, Dt: 3, Len: 5, Fill: 9}); err != nil {
				return fmt.Errorf("after the faults: %q: %v", m, err)
			}
			if err := s.get(m, 1<<63-1); err != nil {
				return fmt.Errorf("after the faults: %v", err)
			}
		}
		if err := s.get(m, 1<<63-1); err != nil {
			return fmt.Errorf("after the faults: %v", err)
		}
	}
	if err := s.db.Close(); err != nil {
		return fmt.Errorf("shutdown: %v", err)
	}
	s.db = store.Open(dir, c.Cfg)
	for _, m := range metrics {
		if err := s.get(m, 1<<63-1); err != nil {
			return fmt.Errorf("after a restart: %v", err)
		}
	}
	// files have their space reserved, so a full disk cannot fail a store into
	// an existing file later on
	for p, size := range store.DataFiles(dir) {
		var st syscall.Stat_t
		if syscall.Stat(p, &st) == nil && st.Blocks*512 < size {
			return fmt.Errorf("%s has %d of %d bytes reserved: a full disk would crash a later store instead of failing a write", p, st.Blocks*512, size)
		}
	}
	x.LabelN("failed writes", s.failed)
	x.LabelN("failed while rotating", s.ambiguous)
	if s.failed > 0 && s.recovered > 0 {
		x.NonTrivial()
	}
	return nil
}

func main() {
	if at := os.Getenv("P13_MOUNT"); at != "" {
		helper(at)
	}
	vkit.Main(vkit.Opts{
		ID: "P13",
		Rule: "histories of writes and queries with refusals of resources starting and ending at drawn points: file size limit (no new file can be allocated), a full disk (all but a few blocks or all but a few inodes of a small file system are taken by something else), no free descriptors, unwritable directories, and something else in place of a metric's directory; every answer and every query compared with the states the model allows, then recovery and a restart; " +
			"non-trivial: at least one write failed because of a refusal and a later one was stored after it ended",
		Level:       "fault_enumeration",
		Assumptions: []string{"the process ignores the file-size signal so that the limit shows up as an error", "the small file system is a tmpfs in a user and mount namespace of its own; where that cannot be made the file-size limit stands in for the full disk", "checks run as an unprivileged user so that directory permissions apply; where identity cannot be changed that kind of refusal is skipped"},
		HangS:       60,
		Init:        setup,
	},
		vkit.P("faults", 8000, 160000, gen, run),
	)
}

var _ = time.Now
