package build

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Sim builds the simulator binary out of the current tree of repo and of the
// simulator sources in src.  Nothing is written outside of work.
func Sim(src, repo, work, out string) error {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return fmt.Errorf("go env: %v", err)
	}
	goroot := strings.TrimSpace(string(b))
	if err := os.MkdirAll(work, 0o755); err != nil {
		return err
	}
	overlay := map[string]string{}
	if err := WriteStd(goroot, work, overlay); err != nil {
		return err
	}
	if err := WriteRepo(repo, work, overlay); err != nil {
		return err
	}
	ov := filepath.Join(work, "overlay.json")
	if err := WriteOverlay(ov, overlay); err != nil {
		return err
	}
	// A private copy of go.mod and go.sum: the build may complete them.
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			return err
		}
		if f == "go.mod" {
			b = []byte(strings.Replace(string(b), "=> /repo", "=> "+repo, 1))
		}
		if f == "go.sum" {
			r, _ := os.ReadFile(filepath.Join(repo, f))
			b = append(b, r...)
		}
		if err := writeIfChanged(filepath.Join(work, f), b); err != nil {
			return err
		}
	}
	cmd := exec.Command("go", "build", "-modfile", filepath.Join(work, "go.mod"), "-overlay", ov, "-tags", "faketime", "-ldflags=-checklinkname=0", "-o", out, "./cmd/simbin")
	cmd.Dir = src
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOEXPERIMENT=norandomizedheapbase64", "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	o, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, o)
	}
	return nil
}
