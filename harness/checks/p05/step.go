package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/database/files/zzverif/store"
	"github.com/vivint/rothko/database/files/zzverif/vkit"
	"pgregory.net/rapid"
)

// Single stepping: a real process performs the write while the thread doing it
// is stepped one instruction at a time. Every distinct state of the data
// directory between two instructions is what a death of the process at that
// point leaves behind, and all of them are checked.

// stepChild is the traced process.
func stepChild() {
	var c Case
	b, err := os.ReadFile(os.Getenv("P05_CASE"))
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(3)
	}
	control := mapFile(os.Getenv("P05_CONTROL"))
	opts := c.Cfg.Options()
	opts.Tuning.Workers = 1
	opts.Tuning.Drop = false
	db := files.New(os.Getenv("P05_DIR"), opts)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go db.Run(ctx)
	// answers are given on the thread of the only worker
	tid := make(chan int, 1)
	db.Queue(ctx, "warm", 1, 2, []byte("x"), func(bool, error) {
		runtime.LockOSThread()
		tid <- syscall.Gettid()
	})
	t := <-tid
	for i := 0; i < c.Warm; i++ {
		db.QueryLatest(ctx, metric, nil)
	}
	fmt.Println("TID", t)
	bufio.NewReader(os.Stdin).ReadString('\n')
	w := val(c.W)
	db.Queue(ctx, metric, w.Start, w.End, w.Data, func(ok bool, err error) {
		if ok && err == nil {
			control[0] = 1
		} else {
			control[0] = 2
		}
	})
	for {
		time.Sleep(time.Hour)
	}
}

func mapFile(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	vkit.Must(err)
	defer f.Close()
	fi, err := f.Stat()
	vkit.Must(err)
	if fi.Size() == 0 {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, int(fi.Size()), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	vkit.Must(err)
	return b
}

// watcher collects the distinct states of a directory tree.
type watcher struct {
	dir    string
	fd     int
	buf    []byte
	maps   map[string][]byte
	prev   map[string][]byte
	states []map[string][]byte
	seen   map[string]bool
}

func watch(dir string) *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	vkit.Must(err)
	w := &watcher{dir: dir, fd: fd, buf: make([]byte, 4096), seen: map[string]bool{}}
	w.rescan()
	return w
}

func (w *watcher) close() {
	w.unmap()
	syscall.Close(w.fd)
}

func (w *watcher) unmap() {
	for _, b := range w.maps {
		if b != nil {
			syscall.Munmap(b)
		}
	}
	w.maps = map[string][]byte{}
}

func (w *watcher) rescan() {
	w.unmap()
	w.prev = map[string][]byte{}
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			syscall.InotifyAddWatch(w.fd, p, syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVE|syscall.IN_MODIFY)
			return nil
		}
		rel, _ := filepath.Rel(w.dir, p)
		b := mapFile(p)
		w.maps[rel] = b
		w.prev[rel] = append([]byte{}, b...)
		return nil
	})
	w.add()
}

func (w *watcher) add() {
	var key bytes.Buffer
	st := map[string][]byte{}
	for p, b := range w.prev {
		if strings.HasPrefix(p, "warm") {
			continue
		}
		st[p] = append([]byte{}, b...)
	}
	j, _ := json.Marshal(st)
	key.Write(j)
	if !w.seen[key.String()] {
		w.seen[key.String()] = true
		w.states = append(w.states, st)
	}
}

// look notes the current state if it is a new one.
func (w *watcher) look() {
	event := false
	for {
		n, err := syscall.Read(w.fd, w.buf)
		if n <= 0 || err != nil {
			break
		}
		event = true
	}
	if event {
		w.rescan()
		return
	}
	changed := false
	for p, b := range w.maps {
		if q := w.prev[p]; !bytes.Equal(b, q) {
			copy(q, b)
			changed = true
		}
	}
	if changed {
		w.add()
	}
}

var traceOK = true

func ptrace(req, pid, addr, data uintptr) error {
	_, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, req, pid, addr, data, 0, 0)
	if e != 0 {
		return e
	}
	return nil
}

const wall = 0x40000000

func genStep(t *rapid.T) Case {
	c := genBase(t)
	c.Warm = rapid.IntRange(0, 1).Draw(t, "warm")
	if rapid.IntRange(0, 2).Draw(t, "handles") > 0 {
		c.Cfg.Handles = 20
	}
	return c
}

func stepped(x *vkit.Ctx, c Case) error {
	if !traceOK {
		x.Label("tracing unavailable")
		return nil
	}
	base := x.TempDir()
	dir := filepath.Join(base, "db")
	vkit.Must(os.MkdirAll(dir, 0755))
	m, err := history(dir, c)
	if err != nil {
		return err
	}
	cf, control := filepath.Join(base, "case.json"), filepath.Join(base, "control")
	b, _ := json.Marshal(c)
	vkit.Must(os.WriteFile(cf, b, 0644))
	vkit.Must(os.WriteFile(control, make([]byte, 4096), 0644))
	ctl := mapFile(control)
	defer syscall.Munmap(ctl)
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "P05_STEP=1", "P05_CASE="+cf, "P05_DIR="+dir, "P05_CONTROL="+control,
		"GOMAXPROCS=3", "GODEBUG=asyncpreemptoff=1", "GOGC=off")
	in, err := cmd.StdinPipe()
	vkit.Must(err)
	out, err := cmd.StdoutPipe()
	vkit.Must(err)
	var log bytes.Buffer
	cmd.Stderr = &log
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}

	// only this thread may talk to the tracee
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	vkit.Must(cmd.Start())
	var dead int32
	timer := time.AfterFunc(60*time.Second, func() {
		atomic.StoreInt32(&dead, 1)
		cmd.Process.Kill()
	})
	tid := 0
	attached := false
	finish := func() {
		timer.Stop()
		cmd.Process.Kill()
		// the end of the traced thread has to be collected first
		for attached {
			var ws syscall.WaitStatus
			_, err := syscall.Wait4(tid, &ws, wall, nil)
			if err == syscall.EINTR {
				continue
			}
			if err != nil || ws.Exited() || ws.Signaled() {
				break
			}
			ptrace(syscall.PTRACE_CONT, uintptr(tid), 0, 0)
		}
		cmd.Wait()
	}
	line, _ := bufio.NewReader(out).ReadString('\n')
	tid, err = strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(line, "TID ")))
	if err != nil {
		finish()
		return fmt.Errorf("the process writing to the database did not start: %q %s", line, log.String())
	}
	if err := ptrace(syscall.PTRACE_ATTACH, uintptr(tid), 0, 0); err != nil {
		finish()
		traceOK = false
		x.Label("tracing unavailable")
		return nil
	}
	attached = true
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(tid, &ws, wall, nil); err != nil || !ws.Stopped() {
		finish()
		traceOK = false
		x.Label("tracing unavailable")
		return nil
	}
	w := watch(dir)
	defer w.close()
	io.WriteString(in, "go\n")
	steps, sig := 0, uintptr(0)
	ctlWord := (*uint32)(unsafe.Pointer(&ctl[0]))
	gone := false
	for atomic.LoadUint32(ctlWord) == 0 && steps < 3000000 {
		if err := ptrace(syscall.PTRACE_SINGLESTEP, uintptr(tid), 0, sig); err != nil {
			gone = true
			break
		}
		if _, err := syscall.Wait4(tid, &ws, wall, nil); err != nil || !ws.Stopped() {
			gone = true
			break
		}
		sig = 0
		if s := ws.StopSignal(); s != syscall.SIGTRAP && s != syscall.SIGSTOP {
			sig = uintptr(s)
		}
		steps++
		w.look()
	}
	res := atomic.LoadUint32(ctlWord)
	finish()
	w.look()
	if gone || res == 0 {
		if atomic.LoadInt32(&dead) == 1 {
			return fmt.Errorf("the write took over 60 s of single steps (%d)", steps)
		}
		return fmt.Errorf("the process ended during the write, after %d steps: %s", steps, log.String())
	}
	if res != 1 {
		return fmt.Errorf("uninterrupted write failed: %s", log.String())
	}
	x.LabelN("states between two instructions", len(w.states))
	for i, st := range w.states {
		dir2 := filepath.Join(base, "crash")
		os.RemoveAll(dir2)
		store.Restore(dir2, st)
		if err := verify(x, dir2, c, m, i == len(w.states)-1); err != nil {
			return fmt.Errorf("state %d of %d left by dying in the middle of the write (files %s): %v", i, len(w.states), describe(st, w.states[0]), err)
		}
	}
	if len(w.states) > 2 && len(c.Puts) > 0 {
		x.NonTrivial()
	}
	return nil
}

// describe says how a state differs from the one before the write.
func describe(st, before map[string][]byte) string {
	var out []string
	for p, b := range st {
		o, had := before[p]
		if !had {
			out = append(out, fmt.Sprintf("%s new, %d bytes", p, len(b)))
			continue
		}
		n, first := 0, -1
		for i := range b {
			if i >= len(o) || b[i] != o[i] {
				n++
				if first < 0 {
					first = i
				}
			}
		}
		if n > 0 {
			out = append(out, fmt.Sprintf("%s differs in %d bytes from %d", p, n, first))
		}
	}
	for p := range before {
		if _, ok := st[p]; !ok {
			out = append(out, p+" removed")
		}
	}
	return strings.Join(out, ", ")
}
