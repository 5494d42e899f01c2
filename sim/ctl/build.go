package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

type builder struct {
	repo, sim, scratch string
	goBin              string
	sites              int
	siteTab            []siteInfo
	instr              map[string]int
}

type siteInfo struct {
	F  string `json:"f"`
	L  int    `json:"l"`
	Fn string `json:"fn"`
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		return out.String(), fmt.Errorf("%s %s: %v\n%s%s", name, strings.Join(args, " "), err, tail(out.String(), 3000), tail(errb.String(), 6000))
	}
	return out.String(), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// copyGo copies the non-test Go files (and go.mod, go.sum) of a module.
func copyGo(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if n := d.Name(); rel != "." && (strings.HasPrefix(n, ".") || n == "testdata") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		n := d.Name()
		if strings.HasSuffix(n, "_test.go") {
			return nil
		}
		if strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum" || strings.HasSuffix(n, ".s") {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
		}
		// anything else may be embedded by the sources
		if fi, err := d.Info(); err == nil && fi.Size() < 1<<20 {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
		}
		return nil
	})
}

var goLine = regexp.MustCompile(`(?m)^go 1\.(\d+)(\.\d+)?\s*$`)

// langAtLeast121 raises the language version of a scratch copy to one that has
// the generics the insertions need, but not yet the newer loop variables.
func langAtLeast121(gm string) {
	b, err := os.ReadFile(gm)
	if err != nil {
		return
	}
	b = goLine.ReplaceAllFunc(b, func(l []byte) []byte {
		if n, _ := strconv.Atoi(string(goLine.FindSubmatch(l)[1])); n < 21 {
			return []byte("go 1.21")
		}
		return l
	})
	os.WriteFile(gm, b, 0o644)
}

func isFile(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.Mode().IsRegular()
}

var reqBlock = regexp.MustCompile(`(?ms)^require\s*\(.*?^\)`)
var reqLine = regexp.MustCompile(`(?m)^require\s+[^(\s].*$`)
var replBlock = regexp.MustCompile(`(?ms)^replace\s*\(.*?^\)`)

func (b *builder) prepare() error {
	w := b.scratch
	jl, pk := filepath.Join(w, "jsonutils"), filepath.Join(w, "xpkg")
	if err := copyGo(b.repo, jl); err != nil {
		return err
	}
	out, err := run(jl, nil, b.goBin, "list", "-m", "-f", "{{.Dir}}", "yunion.io/x/pkg")
	if err != nil {
		return err
	}
	if err := copyGo(strings.TrimSpace(out), pk); err != nil {
		return err
	}
	// the YAML packages stay as they are, except for the order of maps
	order, replOrder := "", ""
	for i, m := range []string{"gopkg.in/yaml.v2", "github.com/ghodss/yaml"} {
		out, err := run(jl, nil, b.goBin, "list", "-m", "-f", "{{.Dir}}", m)
		if err != nil || strings.TrimSpace(out) == "" {
			continue
		}
		d := fmt.Sprintf("yaml%d", i)
		if err := copyGo(strings.TrimSpace(out), filepath.Join(w, d)); err != nil {
			return err
		}
		if gm := filepath.Join(w, d, "go.mod"); !isFile(gm) {
			os.WriteFile(gm, []byte("module "+m+"\n\ngo 1.15\n"), 0o644)
		}
		langAtLeast121(filepath.Join(w, d, "go.mod"))
		order += m + ","
		replOrder += "\nreplace " + m + " => ../" + d + "\n"
	}
	langAtLeast121(filepath.Join(jl, "go.mod"))
	langAtLeast121(filepath.Join(pk, "go.mod"))
	for _, d := range []string{"simrt", "harness"} {
		if err := copyGo(filepath.Join(b.sim, d), filepath.Join(w, d)); err != nil {
			return err
		}
	}
	mod, err := os.ReadFile(filepath.Join(jl, "go.mod"))
	if err != nil {
		return err
	}
	var sb strings.Builder
	sb.WriteString("module harness\n\ngo 1.24\n\nrequire (\n\tyunion.io/x/jsonutils v0.0.0\n\tsimrt v0.0.0\n)\n\n")
	for _, m := range append(reqBlock.FindAllString(string(mod), -1), reqLine.FindAllString(string(mod), -1)...) {
		sb.WriteString(m + "\n\n")
	}
	sb.WriteString("replace yunion.io/x/jsonutils => ../jsonutils\n\nreplace yunion.io/x/pkg => ../xpkg\n\nreplace simrt => ../simrt\n" + replOrder)
	h := filepath.Join(w, "harness")
	if err := os.WriteFile(filepath.Join(h, "go.mod"), []byte(sb.String()), 0o644); err != nil {
		return err
	}
	if sum, err := os.ReadFile(filepath.Join(jl, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(h, "go.sum"), sum, 0o644)
	}
	ins := filepath.Join(w, "instrument.bin")
	if _, err := run(filepath.Join(b.sim, "instrument"), nil, b.goBin, "build", "-o", ins, "."); err != nil {
		return err
	}
	st := filepath.Join(w, "sites.json")
	if _, err := run(h, nil, ins, "-mod", h, "-prefix", "yunion.io/x/jsonutils,yunion.io/x/pkg", "-order", order, "-pkgs", "yunion.io/x/jsonutils", "-sites", st); err != nil {
		return err
	}
	js, err := os.ReadFile(st)
	if err != nil {
		return err
	}
	var tab struct {
		Sites []siteInfo
		Stats map[string]int
	}
	if err := json.Unmarshal(js, &tab); err != nil {
		return err
	}
	b.siteTab, b.sites, b.instr = tab.Sites, len(tab.Sites), tab.Stats
	return nil
}

func (b *builder) bin(race bool) string {
	if race {
		return filepath.Join(b.scratch, "sim-race")
	}
	return filepath.Join(b.scratch, "sim-plain")
}

func (b *builder) build(race bool) error {
	args := []string{"build", "-o", b.bin(race)}
	if race {
		args = append(args, "-race", "-ldflags=-checklinkname=0", "-gcflags=all=-race=false", "-gcflags=simrt/...=-race=false -l",
			"-gcflags=yunion.io/x/jsonutils/...=", "-gcflags=yunion.io/x/pkg/...=")
	} else {
		args = append(args, "-gcflags=simrt/...=-l")
	}
	args = append(args, ".")
	dir := filepath.Join(b.scratch, "harness")
	if race {
		// Packages compiled without race instrumentation (simulator, harness,
		// standard library) would allocate through fast paths that do not tell
		// the race detector that memory is fresh.
		_, err := run(dir, []string{"CGO_ENABLED=1", "GOEXPERIMENT=nosizespecializedmalloc,noruntimefreegc"}, b.goBin, args...)
		if err == nil || !strings.Contains(err.Error(), "unknown GOEXPERIMENT") {
			return err
		}
	}
	_, err := run(dir, []string{"CGO_ENABLED=1"}, b.goBin, args...)
	return err
}

func (b *builder) buildAll(plain, race bool) error {
	var wg sync.WaitGroup
	var e1, e2 error
	if plain {
		wg.Add(1)
		go func() { defer wg.Done(); e1 = b.build(false) }()
	}
	if race {
		wg.Add(1)
		go func() { defer wg.Done(); e2 = b.build(true) }()
	}
	wg.Wait()
	if e1 != nil {
		return e1
	}
	return e2
}
