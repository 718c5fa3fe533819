package build

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
)

// Config says what to build from what.
type Config struct {
	Repo  string // the repository under test
	Sim   string // the simulator's module
	Dir   string // where build products go
	Race  bool   // with the race detector
	NoSim bool   // no standard-library seams (plain build of the packages)
	Tool  string // "" = library worker, "stubs", "full" = format detection workers, else a command: cmd/<Tool>
}

// Binary is a built simulator.
type Binary struct {
	Path  string
	Note  string // fallbacks which were needed
	Files int    // instrumented files
}

func goEnv(cgo bool) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GO111MODULE", "GOOS", "GOARCH", "GODEBUG", "GOEXPERIMENT", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	on := "CGO_ENABLED=0"
	if cgo {
		on = "CGO_ENABLED=1" // the race detector needs it
	}
	return append(env, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", on)
}

func goRoot() (string, error) {
	c := exec.Command("go", "env", "GOROOT")
	c.Env = goEnv(false)
	out, err := c.Output()
	if err != nil {
		return "", fmt.Errorf("go env GOROOT: %v", err)
	}
	return strings.TrimSpace(string(out)), nil
}

// packages of the repository which are instrumented: everything with Go files.
func repoPackages(repo string) (dirs []string, err error) {
	err = filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !info.IsDir() {
			return nil
		}
		n := info.Name()
		if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
			return filepath.SkipDir
		}
		if p != repo {
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		m, _ := filepath.Glob(filepath.Join(p, "*.go"))
		if len(m) > 0 {
			dirs = append(dirs, p)
		}
		return nil
	})
	return
}

var goLine = regexp.MustCompile(`(?m)^go\s+1\.(\d+).*$`)

// Build compiles one simulator binary.
func Build(cfg Config) (*Binary, error) {
	goroot, err := goRoot()
	if err != nil {
		return nil, err
	}
	if runtime.GOARCH != "amd64" {
		return nil, fmt.Errorf("the system call seam is for linux/amd64")
	}
	res, log, err := build(cfg, goroot, false)
	if err != nil {
		res2, _, err2 := build(cfg, goroot, true)
		if err2 != nil {
			return nil, fmt.Errorf("%v\n%s", err, log)
		}
		res2.Note = "operands of go statements not captured"
		return res2, nil
	}
	return res, nil
}

func build(cfg Config, goroot string, plain bool) (*Binary, string, error) {
	dir := cfg.Dir
	if err := os.MkdirAll(dir, 0755); err != nil {
		return nil, "", err
	}
	overlay := map[string]string{}
	if !cfg.NoSim {
		o, err := stdOverlay(goroot, dir)
		if err != nil {
			return nil, "", err
		}
		overlay = o
	}
	modb, err := os.ReadFile(filepath.Join(cfg.Repo, "go.mod"))
	if err != nil {
		return nil, "", err
	}
	// the language version has to know type parameters (the inserted calls do)
	if m := goLine.FindSubmatch(modb); m == nil {
		modb = append(modb, "\ngo 1.21\n"...)
	} else if v, _ := strconv.Atoi(string(m[1])); v < 21 {
		modb = goLine.ReplaceAll(modb, []byte("go 1.21"))
	}
	put := func(target, name string, b []byte) error {
		f := filepath.Join(dir, "src", name)
		if err := writeFile(f, b); err != nil {
			return err
		}
		overlay[target] = f
		return nil
	}
	if err := put(filepath.Join(cfg.Repo, "go.mod"), "go.mod", modb); err != nil {
		return nil, "", err
	}
	modpath := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(modb)
	if modpath == nil {
		return nil, "", fmt.Errorf("go.mod names no module")
	}
	mod := string(modpath[1])
	pkgs, err := repoPackages(cfg.Repo)
	if err != nil {
		return nil, "", err
	}
	n := 0
	for _, p := range pkgs {
		rel, _ := filepath.Rel(cfg.Repo, p)
		opt := Options{PlainGo: plain, Module: mod, Root: cfg.Repo}
		if cfg.Tool != "" && rel == "cmd/"+cfg.Tool {
			opt.RenameMain = "simOriginalMain"
		}
		files, err := Package(p, opt)
		if err != nil {
			return nil, "", err
		}
		for fn, b := range files {
			n++
			if err := put(fn, strings.ReplaceAll(filepath.Join(rel, filepath.Base(fn)), "/", "__"), b); err != nil {
				return nil, "", err
			}
		}
	}
	target := "verif.local/sim/worker"
	switch cfg.Tool {
	case "":
	case "stubs", "full":
		target = "verif.local/sim/p15/" + cfg.Tool
	default:
		target = mod + "/cmd/" + cfg.Tool
		err := put(filepath.Join(cfg.Repo, "cmd", cfg.Tool, "zz_sim_main.go"), "zz_sim_main.go", []byte("package main\n\nimport \"verif.local/sim/toolmain\"\n\nfunc main() { toolmain.Main(simOriginalMain) }\n"))
		if err != nil {
			return nil, "", err
		}
	}
	mf := fmt.Sprintf("module verif.local/sim\n\ngo 1.21\n\nrequire %s v0.0.0\n\nreplace %s => %s\n", mod, mod, cfg.Repo)
	modfile := filepath.Join(dir, "sim.mod")
	if err := writeFile(modfile, []byte(mf)); err != nil {
		return nil, "", err
	}
	os.WriteFile(filepath.Join(dir, "sim.sum"), nil, 0644)
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	of := filepath.Join(dir, "overlay.json")
	if err := writeFile(of, ob); err != nil {
		return nil, "", err
	}
	name := cfg.Tool
	if name == "" {
		name = "worker"
	}
	args := []string{"build", "-overlay", of, "-modfile", modfile}
	if cfg.Race {
		name += ".race"
		args = append(args, "-race")
	}
	bin := filepath.Join(dir, name)
	args = append(args, "-o", bin, target)
	c := exec.Command("go", args...)
	c.Dir = cfg.Sim
	c.Env = goEnv(cfg.Race)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Run(); err != nil {
		return nil, out.String(), fmt.Errorf("go %s: %v", strings.Join(args, " "), err)
	}
	return &Binary{Path: bin, Files: n}, out.String(), nil
}
