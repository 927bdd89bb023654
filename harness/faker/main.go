// Command faker stands in for R / Rscript when the conformance harness drives
// the real pkgr binary.  It is found through pkgr's RPath setting; everything it
// needs lies beside the path it was started with (argv[0]): policy.json says how
// each package behaves, events.ndjson receives one line per observable event.
// It understands exactly the command lines pkgr issues:
//
//	R --version
//	R --vanilla CMD INSTALL [opts] --library=LIB PATH
//	R --slave --no-restore -e EXPR
//	Rscript -e EXPR
package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

type pkgPolicy struct {
	BuildDelay int    `json:"bd"` // ms before the build ends
	BuildFail  int    `json:"bf"` // exit code of the build (0: success)
	InstDelay  int    `json:"id"`
	InstFail   int    `json:"if"`
	NoBinary   bool   `json:"nobin"`  // build reports success but leaves no binary
	Debris     bool   `json:"debris"` // failing install leaves a partial directory
	Out        string `json:"out"`    // printed on stdout
	ErrOut     string `json:"err"`    // printed on stderr by a load
	LoadFail   int    `json:"lf"`
	LoadDelay  int    `json:"ld"`
	LoadQuiet  bool   `json:"lq"` // a failing load prints nothing
	InfoFail   int    `json:"nf"`
}

type policy struct {
	Version  string               `json:"rversion"`
	Platform string               `json:"platform"`
	Lib      string               `json:"lib"`
	Pkgs     map[string]pkgPolicy `json:"pkgs"`
	KillAt   int                  `json:"killAt"`  // 1-based index of the event at which pkgr is killed (0: never)
	KillPost bool                 `json:"killPost"` // kill after this R call has finished its work
	LibPaths []string             `json:"libpaths"`
	Installed map[string]string   `json:"installed"` // for find.package / packageVersion
	RenvLib  string               `json:"renvlib"`
	RenvSays string               `json:"renvsays"`
	Echo     []string             `json:"echo"` // names of variables whose values are printed
	Light    bool                 `json:"light"`
	Desc     bool                 `json:"desc"` // report the DESCRIPTION an install wrote
}

var dir string
var pol policy

// die ends with a status, or by a signal (negative).
func die(rc int, f string, a ...any) {
	if f != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
	if rc < 0 {
		signal.Reset()
		syscall.Kill(os.Getpid(), syscall.Signal(-rc))
		time.Sleep(time.Minute)
	}
	os.Exit(rc)
}

func readDesc(p string) map[string]string {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	return parseDesc(b)
}

func parseDesc(b []byte) map[string]string {
	m := map[string]string{}
	last := ""
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t") {
			m[last] += " " + strings.TrimSpace(l)
			continue
		}
		k, v, ok := strings.Cut(l, ":")
		if ok {
			last = k
			m[k] = strings.TrimSpace(v)
		}
	}
	return m
}

type libEnt struct {
	Dir    string `json:"dir"`
	Pkg    string `json:"pkg"`
	Ver    string `json:"ver"`
	Marker string `json:"marker"`
}

func listLib(lib string) []libEnt {
	res := []libEnt{}
	es, err := os.ReadDir(lib)
	if err != nil {
		return res
	}
	for _, e := range es {
		if !e.IsDir() || strings.HasPrefix(e.Name(), "00LOCK") {
			continue
		}
		d := readDesc(filepath.Join(lib, e.Name(), "DESCRIPTION"))
		if d == nil {
			res = append(res, libEnt{Dir: e.Name(), Pkg: "-", Ver: "-", Marker: "-"})
			continue
		}
		res = append(res, libEnt{Dir: e.Name(), Pkg: d["Package"], Ver: d["Version"], Marker: d["Marker"]})
	}
	return res
}

// emit appends one event; the index of the event is its position in the file.
func emit(ev map[string]any) int {
	f, err := os.OpenFile(filepath.Join(dir, "events.ndjson"), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
	if err != nil {
		die(97, "faker: %v", err)
	}
	defer f.Close()
	n := -1
	if pol.KillAt > 0 {
		if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
			die(97, "faker: flock: %v", err)
		}
		all, _ := io.ReadAll(f)
		n = bytes.Count(all, []byte("\n")) + 1
	}
	b, _ := json.Marshal(ev)
	if _, err := f.Write(append(b, '\n')); err != nil {
		die(97, "faker: %v", err)
	}
	return n
}

func killParent() {
	syscall.Kill(os.Getppid(), syscall.SIGKILL)
	// wait until it is gone, so that nothing after this point is seen by it
	for i := 0; i < 2000; i++ {
		if os.Getppid() == 1 || syscall.Kill(os.Getppid(), 0) != nil {
			break
		}
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", os.Getppid()))
		if err != nil || bytes.Contains(b, []byte(") Z ")) {
			break
		}
		time.Sleep(time.Millisecond)
	}
}

func main() {
	dir = filepath.Dir(os.Args[0])
	if b, err := os.ReadFile(filepath.Join(dir, "policy.json")); err == nil {
		if err := json.Unmarshal(b, &pol); err != nil {
			die(97, "faker: policy: %v", err)
		}
	}
	if pol.Version == "" {
		pol.Version = "4.1.2"
	}
	if pol.Platform == "" {
		pol.Platform = "x86_64-pc-linux-gnu"
	}
	args := os.Args[1:]
	if strings.HasSuffix(os.Args[0], "script") {
		rscript(args)
		return
	}
	if len(args) == 1 && args[0] == "--version" {
		fmt.Printf("R version %s (2021-11-01) -- \"Fake\"\nCopyright (C) none\nPlatform: %s (64-bit)\n", pol.Version, pol.Platform)
		return
	}
	if len(args) >= 3 && args[0] == "--vanilla" && args[1] == "CMD" && args[2] == "INSTALL" {
		install(args[3:])
		return
	}
	for i, a := range args {
		if a == "-e" && i+1 < len(args) {
			expr(args, args[i+1])
			return
		}
	}
	if len(args) == 1 && args[0] == "--vanilla" { // pkgr run
		emit(map[string]any{"ev": "RUN", "args": args, "env": os.Environ(), "cwd": cwd()})
		return
	}
	emit(map[string]any{"ev": "UNKNOWN", "args": args})
	die(2, "faker: unknown arguments %q", args)
}

func cwd() string { c, _ := os.Getwd(); return c }

func rscript(args []string) {
	emit(map[string]any{"ev": "RSCRIPT", "args": args, "cwd": cwd()})
	if pol.RenvLib != "" {
		switch pol.RenvSays {
		case "fails":
			fmt.Printf("\n_pkgr_%s_pkgr_\n", pol.RenvLib)
			die(1, "Error in renv::paths$library() : something else")
		case "nothing":
			fmt.Printf("\n_pkgr__pkgr_\n")
		case "unmarked":
			fmt.Printf("\n%s\n", pol.RenvLib)
		case "noisy":
			fmt.Fprintln(os.Stderr, "_pkgr_/nowhere_pkgr_")
			fmt.Printf("- Project '~/x' loaded. [renv 0.14.0]\n* library: '/nowhere'\n\n_pkgr_%s_pkgr_\n- done _pkgr_\n", pol.RenvLib)
		default:
			fmt.Printf("\n_pkgr_%s_pkgr_\n", pol.RenvLib)
		}
		return
	}
	die(1, "Error in loadNamespace(x) : there is no package called 'renv'")
}

var reLib = regexp.MustCompile(`^library\('([^']*)'\)$`)
var reInfo = regexp.MustCompile(`^find\.package\('([^']*)'\)`)

func expr(args []string, e string) {
	if m := reLib.FindStringSubmatch(e); m != nil {
		p := pol.Pkgs[m[1]]
		emit(map[string]any{"ev": "LS", "pkg": m[1], "cwd": cwd()})
		if p.LoadDelay > 0 {
			time.Sleep(time.Duration(p.LoadDelay) * time.Millisecond)
		}
		emit(map[string]any{"ev": "LE", "pkg": m[1]})
		if p.Out != "" {
			fmt.Println(p.Out)
		}
		if p.ErrOut != "" {
			fmt.Fprintln(os.Stderr, p.ErrOut)
		}
		if p.LoadFail != 0 && p.LoadQuiet {
			die(p.LoadFail, "")
		}
		if p.LoadFail != 0 {
			die(p.LoadFail, "Error in library('%s') : there is no package called %s", m[1], m[1])
		}
		return
	}
	if m := reInfo.FindStringSubmatch(e); m != nil {
		p := pol.Pkgs[m[1]]
		v, ok := pol.Installed[m[1]]
		emit(map[string]any{"ev": "NS", "pkg": m[1], "cwd": cwd()})
		if p.LoadDelay > 0 {
			time.Sleep(time.Duration(p.LoadDelay/2) * time.Millisecond)
		}
		emit(map[string]any{"ev": "NE", "pkg": m[1]})
		if p.InfoFail != 0 || !ok {
			die(1, "Error in find.package")
		}
		fmt.Printf("[1] \"%s\"\n[1] \"%s\"\n", filepath.Join(pol.Lib, m[1]), v)
		return
	}
	if strings.HasPrefix(e, ".libPaths()") {
		for i, l := range pol.LibPaths {
			fmt.Printf("[%d] \"%s\"\n", i+1, l)
		}
		return
	}
	emit(map[string]any{"ev": "UNKNOWN", "args": args})
	die(2, "faker: unknown expression %q", e)
}

type payload struct {
	desc  map[string]string
	raw   []byte            // DESCRIPTION
	files map[string]string // relative to the package directory
	root  string
}

func readTarball(path string) (payload, error) {
	var pl payload
	f, err := os.Open(path)
	if err != nil {
		return pl, err
	}
	defer f.Close()
	gz, err := gzip.NewReader(f)
	if err != nil {
		return pl, err
	}
	tr := tar.NewReader(gz)
	pl.files = map[string]string{}
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return pl, err
		}
		if h.Typeflag != tar.TypeReg {
			continue
		}
		b, err := io.ReadAll(tr)
		if err != nil {
			return pl, err
		}
		top, rest, _ := strings.Cut(strings.TrimPrefix(h.Name, "./"), "/")
		pl.root = top
		if rest == "DESCRIPTION" {
			pl.raw = b
			pl.desc = parseDesc(b)
		} else {
			pl.files[rest] = string(b)
		}
	}
	// drain: a truncated gzip stream must not be accepted
	if _, err := io.Copy(io.Discard, gz); err != nil {
		return pl, err
	}
	if pl.desc == nil || pl.desc["Package"] == "" {
		return pl, fmt.Errorf("no DESCRIPTION")
	}
	return pl, nil
}

func readDir(path string) (payload, error) {
	var pl payload
	b, err := os.ReadFile(filepath.Join(path, "DESCRIPTION"))
	if err != nil {
		return pl, err
	}
	pl.raw = b
	pl.desc = parseDesc(b)
	pl.root = filepath.Base(path)
	pl.files = map[string]string{}
	filepath.Walk(path, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.Mode().IsRegular() {
			r, _ := filepath.Rel(path, p)
			if r != "DESCRIPTION" {
				c, _ := os.ReadFile(p)
				pl.files[r] = string(c)
			}
		}
		return nil
	})
	if pl.desc["Package"] == "" {
		return pl, fmt.Errorf("no Package field")
	}
	return pl, nil
}

func install(args []string) {
	lib, path, build := "", "", false
	for _, a := range args {
		switch {
		case strings.HasPrefix(a, "--library="):
			lib = strings.TrimPrefix(a, "--library=")
		case a == "--build":
			build = true
		case strings.HasPrefix(a, "-"):
		default:
			path = a
		}
	}
	var pl payload
	st, err := os.Stat(path)
	isDir := err == nil && st.IsDir()
	if err == nil {
		if isDir {
			pl, err = readDir(path)
		} else {
			pl, err = readTarball(path)
		}
	}
	name := pl.desc["Package"]
	kind := "I" // install into a library
	if build && lib == cwd() {
		kind = "B" // build a binary in a temporary library
	}
	p := pol.Pkgs[name]
	ev := map[string]any{"ev": kind + "S", "pkg": name, "ver": pl.desc["Version"], "marker": pl.desc["Marker"],
		"path": path, "lib": lib, "cwd": cwd(), "dir": isDir, "built": pl.desc["Built"]}
	if err != nil {
		ev["bad"] = err.Error()
		ev["pkg"], ev["ver"], ev["marker"] = "?", "?", "?"
	}
	if !pol.Light {
		ev["args"] = args
		env := os.Environ()
		sort.Strings(env)
		ev["env"] = env
		ev["libls"] = listLib(pol.Lib)
		ev["rlibsuser"] = dirState(os.Getenv("R_LIBS_USER"))
	}
	n := emit(ev)
	killed := n > 0 && n == pol.KillAt
	if killed && !pol.KillPost {
		killParent()
		os.Exit(1)
	}
	for _, v := range pol.Echo {
		fmt.Printf("ECHO %s=%s\n", v, os.Getenv(v))
	}
	if p.Out != "" {
		fmt.Println(p.Out)
	}
	written := ""
	end := func(rc int, why string) {
		e := map[string]any{"ev": kind + "E", "pkg": ev["pkg"], "ver": ev["ver"], "marker": ev["marker"], "rc": rc, "lib": lib}
		if !pol.Light {
			e["libls"] = listLib(pol.Lib)
		}
		if pol.Desc {
			e["desc"], e["path"] = written, path
		}
		m := emit(e)
		if killed || (m > 0 && m == pol.KillAt) {
			killParent()
		}
		if rc != 0 {
			die(rc, "ERROR: %s", why)
		}
		os.Exit(0)
	}
	if err != nil {
		end(1, fmt.Sprintf("cannot read package %s: %v", path, err))
	}
	delay, rc := p.InstDelay, p.InstFail
	if kind == "B" || (isDir && build) {
		delay, rc = p.BuildDelay, p.BuildFail
		if isDir && rc == 0 {
			rc = p.InstFail
		}
	}
	if delay > 0 {
		time.Sleep(time.Duration(delay) * time.Millisecond)
	}
	if rc != 0 {
		if p.Debris {
			os.MkdirAll(filepath.Join(lib, name, "R"), 0777)
			os.WriteFile(filepath.Join(lib, name, "R", "partial"), []byte("partial"), 0666)
		}
		end(rc, "installation of package failed: "+name)
	}
	if st, err := os.Stat(lib); err != nil || !st.IsDir() {
		end(1, "library "+lib+" does not exist")
	}
	// write the package beside its final place, then rename
	tmp := filepath.Join(lib, fmt.Sprintf("00LOCK-%s-%d", name, os.Getpid()))
	os.RemoveAll(tmp)
	if err := os.MkdirAll(filepath.Join(tmp, name), 0777); err != nil {
		end(1, err.Error())
	}
	d := string(pl.raw)
	if !strings.HasSuffix(d, "\n") {
		d += "\n"
	}
	if _, ok := pl.desc["Built"]; !ok {
		d += "Built: R " + pol.Version + "; ; fake; unix\n"
	}
	written = d
	os.WriteFile(filepath.Join(tmp, name, "DESCRIPTION"), []byte(d), 0666)
	for f, c := range pl.files {
		os.MkdirAll(filepath.Dir(filepath.Join(tmp, name, f)), 0777)
		os.WriteFile(filepath.Join(tmp, name, f), []byte(c), 0666)
	}
	os.RemoveAll(filepath.Join(lib, name))
	if err := os.Rename(filepath.Join(tmp, name), filepath.Join(lib, name)); err != nil {
		os.RemoveAll(tmp)
		end(1, err.Error())
	}
	os.RemoveAll(tmp)
	if build && !p.NoBinary {
		out := fmt.Sprintf("%s_%s_R_%s.tar.gz", name, pl.desc["Version"], pol.Platform)
		var buf bytes.Buffer
		gz := gzip.NewWriter(&buf)
		tw := tar.NewWriter(gz)
		w := func(n, c string) {
			tw.WriteHeader(&tar.Header{Name: name + "/" + n, Mode: 0644, Size: int64(len(c)), Typeflag: tar.TypeReg})
			tw.Write([]byte(c))
		}
		w("DESCRIPTION", d)
		keys := []string{}
		for f := range pl.files {
			keys = append(keys, f)
		}
		sort.Strings(keys)
		for _, f := range keys {
			w(f, pl.files[f])
		}
		tw.Close()
		gz.Close()
		os.WriteFile(out, buf.Bytes(), 0666)
	}
	end(0, "")
}

func dirState(p string) string {
	if p == "" {
		return "unset"
	}
	es, err := os.ReadDir(p)
	if err != nil {
		return "missing"
	}
	if len(es) > 0 {
		return "nonempty"
	}
	return "empty"
}
