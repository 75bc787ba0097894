package engine

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Repo is the code under test.
const Repo = "/repo"

// GoBuild builds a command of the code under test, from its working tree.
func GoBuild(output string, env []string, args ...string) error {
	if err := os.MkdirAll(filepath.Dir(output), 0o755); err != nil {
		return err
	}
	cmd := exec.Command("go", append([]string{"build", "-buildvcs=false", "-o", output}, args...)...)
	cmd.Dir = Repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
	cmd.Env = append(cmd.Env, env...)
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

// GoRoot returns the root of the toolchain.
func GoRoot() (string, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir = Repo
	out, err := cmd.Output()
	return strings.TrimSpace(string(out)), err
}
