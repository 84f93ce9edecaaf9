package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native builds the harness area with the ordinary Go toolchain and runs
// recorded input vectors against it.
type Native struct {
	area string
	dir  string
	bin  string
	done chan struct{}
	err  error
	mu   sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	runs int64
	rep  int64
}

type replayReq struct {
	Harness string         `json:"harness"`
	Vector  []uint64       `json:"vector"`
	Params  map[string]int `json:"params"`
}

type replayResp struct {
	End string   `json:"end"`
	Obs []string `json:"obs"`
}

// harnessFuncs lists exported niladic functions of the area.
func harnessFuncs(p *Program, area string) []string {
	var out []string
	sc := p.pkgs[zz+"/"+area].Pkg.Scope()
	for _, n := range sc.Names() {
		if f, ok := sc.Lookup(n).(*types.Func); ok && f.Exported() {
			sig := f.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 0 {
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

func startNative(p *Program, area, scratch string) *Native {
	nt := &Native{area: area, dir: filepath.Join(scratch, "native_"+area), done: make(chan struct{})}
	fns := harnessFuncs(p, area)
	go func() {
		defer close(nt.done)
		nt.err = nt.build(fns)
	}()
	return nt
}

func (nt *Native) build(fns []string) error {
	if err := os.MkdirAll(nt.dir, 0o755); err != nil {
		return err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"os\"\n\n\t\"%s/%s\"\n\t\"%s/sym\"\n)\n\n", zz, nt.area, zz)
	sb.WriteString("var table = map[string]func(){\n")
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t%q: %s.%s,\n", f, nt.area, f)
	}
	sb.WriteString(`}

type req struct {
	Harness string         ` + "`json:\"harness\"`" + `
	Vector  []uint64       ` + "`json:\"vector\"`" + `
	Params  map[string]int ` + "`json:\"params\"`" + `
}

type resp struct {
	End string   ` + "`json:\"end\"`" + `
	Obs []string ` + "`json:\"obs\"`" + `
}

func main() {
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	enc := json.NewEncoder(os.Stdout)
	for {
		var r req
		if dec.Decode(&r) != nil {
			return
		}
		end, obs := sym.Run(table[r.Harness], r.Vector, r.Params)
		enc.Encode(resp{end, obs})
	}
}
`)
	mainSrc := filepath.Join(nt.dir, "main.go")
	if err := os.WriteFile(mainSrc, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	ov := overlayFiles(repoRoot, harnessRoot, []string{"sym", "model", "lib", nt.area}, nt.dir)
	ov[filepath.Join(repoRoot, "zzverif", "cmd_"+nt.area, "main.go")] = mainSrc
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(nt.dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return err
	}
	nt.bin = filepath.Join(nt.dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", nt.bin, "./zzverif/cmd_"+nt.area)
	cmd.Dir = repoRoot
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

func (nt *Native) ensure() error {
	<-nt.done
	if nt.err != nil {
		return nt.err
	}
	if nt.cmd != nil {
		return nil
	}
	cmd := exec.Command(nt.bin)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	nt.cmd, nt.in, nt.out = cmd, in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (nt *Native) kill() {
	if nt.cmd != nil {
		nt.in.Close()
		nt.cmd.Process.Kill()
		nt.cmd.Wait()
		nt.cmd = nil
	}
}

// run executes one vector; end is "hang" or "crash" if the process did not answer.
func (nt *Native) run(h string, vec []uint64, params map[string]int, limit time.Duration) (replayResp, error) {
	nt.mu.Lock()
	defer nt.mu.Unlock()
	if err := nt.ensure(); err != nil {
		return replayResp{}, err
	}
	nt.runs++
	b, _ := json.Marshal(replayReq{h, vec, params})
	if _, err := nt.in.Write(append(b, '\n')); err != nil {
		nt.kill()
		return replayResp{End: "crash"}, nil
	}
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	out := nt.out
	go func() {
		l, err := out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			nt.kill()
			return replayResp{End: "crash"}, nil
		}
		var r replayResp
		if err := json.Unmarshal(a.l, &r); err != nil {
			return r, err
		}
		return r, nil
	case <-time.After(limit):
		nt.kill()
		return replayResp{End: "hang"}, nil
	}
}

// confirm replays a candidate; it reports whether the failure reproduces.
func (nt *Native) confirm(v *Violation, harness string, params map[string]int) bool {
	tries := 1
	if v.MapOrder {
		tries = 60
	}
	for i := 0; i < tries; i++ {
		r, err := nt.run(harness, v.Vector, params, 20*time.Second)
		if err != nil {
			fmt.Fprintf(os.Stderr, "verif: replay error: %v\n", err)
			return false
		}
		v.Native = r.End
		if len(r.Obs) > 0 {
			v.NativeObs = r.Obs
		}
		switch v.Kind {
		case "assert":
			if strings.HasPrefix(r.End, "assert:") || strings.HasPrefix(r.End, "panic:") || r.End == "crash" || r.End == "hang" {
				return true
			}
		case "panic":
			if strings.HasPrefix(r.End, "panic:") || r.End == "crash" || strings.HasPrefix(r.End, "assert:") {
				return true
			}
		case "frozen":
			if strings.HasPrefix(r.End, "frozen") || strings.HasPrefix(r.End, "panic:") || strings.HasPrefix(r.End, "assert:") {
				return true
			}
		case "steps":
			if r.End == "hang" || r.End == "crash" {
				return true
			}
		}
	}
	return false
}
