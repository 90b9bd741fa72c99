package xgen

// Harness interface. The symbolic engine replaces every function of this
// file whose name starts with "vp" by its own; the bodies below are what the
// native build of the same harness runs when it replays a solver model.

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"golang.org/x/net/html/charset"
)

type vpAttr struct{ Space, Local, Value string }

// vpTok is one XML token: 1 start, 2 end, 3 text, 4 comment, 5 processing
// instruction, 6 malformed input, 7 directive.
type vpTok struct {
	Kind         int
	Space, Local string
	Attrs        []vpAttr
	Data         string
}

type vpFailure struct{ Msg string }
type vpSkip struct{}
type vpKnownHit struct{ ID string }
type vpStopped struct{}

type vpRunState struct {
	Inputs map[string]string
	names  map[string]int
	docs   map[string]string
	Known  []string
	Obs    []string
	Cov    map[string]bool
	tier   int
	guards int
	known  map[string]bool
	vec    string
	stop   int
	status string
}

var vpS vpRunState

func vpNext(name string) string {
	vpS.names[name]++
	if k := vpS.names[name]; k > 1 {
		name = fmt.Sprintf("%s@%d", name, k)
	}
	return name
}

func vpInt(name string, lo, hi int) int {
	n, err := strconv.Atoi(vpS.Inputs[vpNext(name)])
	if err != nil || n < lo || n > hi {
		n = lo
	}
	return n
}

func vpPick(name string, n int) int { return vpInt(name, 0, n-1) }
func vpBool(name string) bool       { return vpInt(name, 0, 1) == 1 }

func vpStr(name string, min, max int, alphabet string) string {
	s, ok := vpS.Inputs[vpNext(name)]
	if !ok {
		s = strings.Repeat(alphabet[:1], min)
	}
	return s
}

func vpStr2(name string, min, max int, first, rest string) string {
	return vpStr(name, min, max, first)
}

func vpAssume(c bool) {
	if !c {
		panic(vpSkip{})
	}
}

func vpAssert(c bool, msg string) {
	if !c {
		panic(vpFailure{msg})
	}
}

func vpFail(msg string) { panic(vpFailure{msg}) }

func vpKnown(id string, class, cond bool, msg string) {
	if cond {
		return
	}
	if class && vpS.known[id] {
		panic(vpKnownHit{id})
	}
	panic(vpFailure{msg})
}

func vpCover(tag string)          { vpS.Cov[tag] = true }
func vpBound(name, value string)  {}
func vpObserve(tag, value string) { vpS.Obs = append(vpS.Obs, tag+"="+value) }
func vpSym() bool                 { return false }
func vpTier() int                 { return vpS.tier }
func vpMapOrder(on bool)          {}

func vpEscape(s string, attr bool) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '&':
			b.WriteString("&amp;")
		case c == '<':
			b.WriteString("&lt;")
		case c == '>':
			b.WriteString("&gt;")
		case c == '"' && attr:
			b.WriteString("&quot;")
		case c == '\r', attr && (c == '\n' || c == '\t'):
			fmt.Fprintf(&b, "&#%d;", c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func vpDocText(toks []vpTok) string {
	var b strings.Builder
	name := func(space, local string) string {
		if space == "" {
			return local
		}
		return space + ":" + local
	}
	for _, t := range toks {
		switch t.Kind {
		case 1:
			b.WriteString("<" + name(t.Space, t.Local))
			for _, a := range t.Attrs {
				b.WriteString(" " + name(a.Space, a.Local) + "=\"" + vpEscape(a.Value, true) + "\"")
			}
			b.WriteString(">")
		case 2:
			b.WriteString("</" + name(t.Space, t.Local) + ">")
		case 3:
			b.WriteString(vpEscape(t.Data, false))
		case 4:
			b.WriteString("<!--" + t.Data + "-->")
		case 5:
			b.WriteString("<?" + t.Local + " " + t.Data + "?>")
		case 6:
			b.WriteString("</vp-mismatch>")
		case 7:
			b.WriteString("<!" + t.Data + ">")
		}
	}
	if label := vpDeclared(toks); label != "" {
		e, _ := charset.Lookup(label)
		if e == nil {
			panic(vpSkip{})
		}
		if out, err := e.NewEncoder().String(b.String()); err == nil {
			return out
		}
		panic(vpSkip{})
	}
	return b.String()
}

// vpDeclared is the encoding that the prolog of a document declares.
func vpDeclared(toks []vpTok) string {
	for _, t := range toks {
		if t.Kind == 5 && t.Local == "xml" {
			for _, q := range []string{"\"", "'"} {
				if i := strings.Index(t.Data, "encoding="+q); i >= 0 {
					s := t.Data[i+len("encoding="+q):]
					return s[:strings.Index(s, q)]
				}
			}
		}
	}
	return ""
}

func vpPut(path, text string) {
	os.MkdirAll(filepath.Dir(path), 0755)
	os.RemoveAll(path)
	if err := ioutil.WriteFile(path, []byte(text), 0644); err != nil {
		panic(vpSkip{})
	}
	vpS.docs[filepath.Clean(path)] = text
}

func vpPutDoc(path string, toks []vpTok) { vpPut(path, vpDocText(toks)) }
func vpPutText(path, text string)        { vpPut(path, text) }

func vpPutFault(path, kind string) {
	os.MkdirAll(filepath.Dir(path), 0755)
	switch kind {
	case "dir":
		os.MkdirAll(path, 0755)
	case "file":
		ioutil.WriteFile(path, []byte("in the way"), 0644)
	case "loop":
		os.Symlink(filepath.Base(path), path)
	case "full":
		os.Symlink("/dev/full", path)
	case "eio":
		os.Symlink("/proc/self/mem", path)
	case "part":
		var r syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r)
		r.Cur = 48
		if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r) != nil {
			panic(vpSkip{})
		}
	}
}

// vpPutLink makes a symbolic link to another path of the scratch tree.
func vpPutLink(path, to string) {
	os.MkdirAll(filepath.Dir(path), 0755)
	rel, err := filepath.Rel(filepath.Dir(path), to)
	if err != nil || os.Symlink(rel, path) != nil {
		panic(vpSkip{})
	}
}

func vpRead(path string) (string, int) {
	fi, err := os.Stat(path)
	if err != nil {
		if os.IsNotExist(err) {
			return "", 1
		}
		return "", 3
	}
	if fi.IsDir() {
		return "", 2
	}
	if !fi.Mode().IsRegular() {
		return "", 3
	}
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return "", 3
	}
	return string(b), 0
}

func vpUntouched(path string) bool {
	b, err := ioutil.ReadFile(path)
	return err == nil && string(b) == vpS.docs[filepath.Clean(path)]
}

func vpList(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func vpProtect(f func()) (status int, msg string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case vpFailure, vpSkip, vpKnownHit:
			panic(x)
		default:
			status, msg = 3, fmt.Sprint("panic: ", x)
		}
	}()
	f()
	return 0, ""
}

// vpGuard runs f; status 0 returned, 3 panicked.
func vpGuard(f func()) (int, string) { return vpProtect(f) }

// vpGuardX also survives os.Exit in f (status 2): a child process runs the
// harness up to this call first, in a scratch directory of its own.
func vpGuardX(f func()) (int, string) {
	vpS.guards++
	k := vpS.guards
	if vpS.stop == k {
		st, msg := vpProtect(f)
		ioutil.WriteFile(vpS.status, []byte(fmt.Sprint(st, " ", msg)), 0644)
		os.Exit(77)
	}
	dir, err := ioutil.TempDir(os.Getenv("VP_SCRATCH"), "child")
	if err != nil {
		panic(err)
	}
	st := filepath.Join(os.Getenv("VP_SCRATCH"), filepath.Base(dir)+".status")
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVPDriver$")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VP_CHILD="+vpS.vec, "VP_CHILD_STOP="+strconv.Itoa(k), "VP_CHILD_STATUS="+st)
	cmd.Run()
	if _, err := os.Stat(st); err == nil {
		os.Remove(st)
		os.RemoveAll(dir)
		return vpProtect(f)
	}
	os.Chdir(dir)
	return 2, fmt.Sprintf("exit status %d", cmd.ProcessState.ExitCode())
}

// vpRunMain runs the command with the given arguments.
func vpRunMain(args []string) (int, string) {
	cmd := exec.Command(os.Getenv("VP_BIN"), args...)
	out, _ := cmd.CombinedOutput()
	return cmd.ProcessState.ExitCode(), string(out)
}

// ---- native driver ----

type vpVector struct {
	ID      int               `json:"id"`
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Repeat  int               `json:"repeat"`
}

type vpVerdict struct {
	ID     int      `json:"id"`
	Status string   `json:"status"` // pass, fail, skip, known, panic
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Known  string   `json:"known"`
	Tries  int      `json:"tries"`
}

type vpJob struct {
	Vectors []vpVector `json:"vectors"`
	Tier    int        `json:"tier"`
	Known   []string   `json:"known"`
}

func vpOne(v vpVector, job *vpJob, fn func(), stop int, status string) (res vpVerdict) {
	raw, _ := json.Marshal(vpJob{Vectors: []vpVector{v}, Tier: job.Tier, Known: job.Known})
	vpS = vpRunState{Inputs: v.Inputs, names: map[string]int{}, docs: map[string]string{}, Cov: map[string]bool{},
		tier: job.Tier, known: map[string]bool{}, vec: string(raw), stop: stop, status: status}
	for _, k := range job.Known {
		vpS.known[k] = true
	}
	res.ID = v.ID
	defer func() {
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) == nil && lim.Cur != lim.Max {
			lim.Cur = lim.Max
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		}
		res.Obs = vpS.Obs
		switch x := recover().(type) {
		case nil:
			res.Status = "pass"
		case vpFailure:
			res.Status, res.Msg = "fail", x.Msg
		case vpSkip:
			res.Status = "skip"
		case vpKnownHit:
			res.Status, res.Known = "known", x.ID
		default:
			res.Status, res.Msg = "panic", fmt.Sprint(x)
		}
	}()
	fn()
	return
}

// vpDrive is called by the test driver with the table of harnesses.
func vpDrive(table map[string]func()) {
	scratch := os.Getenv("VP_SCRATCH")
	if c := os.Getenv("VP_CHILD"); c != "" {
		var job vpJob
		json.Unmarshal([]byte(c), &job)
		stop, _ := strconv.Atoi(os.Getenv("VP_CHILD_STOP"))
		vpOne(job.Vectors[0], &job, table[job.Vectors[0].Harness], stop, os.Getenv("VP_CHILD_STATUS"))
		ioutil.WriteFile(os.Getenv("VP_CHILD_STATUS"), []byte("end"), 0644)
		os.Exit(77)
	}
	b, err := ioutil.ReadFile(os.Getenv("VP_JOB"))
	if err != nil {
		return
	}
	var job vpJob
	if err := json.Unmarshal(b, &job); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("VP_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	// keep the code's own chatter away
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	enc := json.NewEncoder(out)
	for _, v := range job.Vectors {
		n := v.Repeat
		if n < 1 {
			n = 1
		}
		var r vpVerdict
		for i := 0; i < n; i++ {
			dir, err := ioutil.TempDir(scratch, "run")
			if err != nil {
				panic(err)
			}
			os.Chdir(dir)
			r = vpOne(v, &job, table[v.Harness], 0, "")
			now, _ := os.Getwd()
			os.Chdir(scratch)
			os.RemoveAll(dir)
			if now != "" && now != dir && strings.HasPrefix(now, scratch+"/child") {
				os.RemoveAll(now)
			}
			r.Tries = i + 1
			if r.Status != "pass" {
				break
			}
		}
		enc.Encode(r)
	}
	out.Close()
}

var _ = syscall.ENOSPC
