package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"testing"
	"time"
)

// Children: the test binary re-executes itself with VERIF_CHILD=<name>; the JSON argument is in VERIF_ARG and the
// JSON result goes to stdout.
var children = map[string]func(arg []byte) any{}

func TestMain(tm *testing.M) {
	if name := os.Getenv("VERIF_CHILD"); name != "" {
		f := children[name]
		out, err := json.Marshal(f([]byte(os.Getenv("VERIF_ARG"))))
		if err != nil {
			panic(err)
		}
		os.Stdout.Write(out)
		os.Exit(0)
	}
	os.Exit(tm.Run())
}

func childCmd(name string, arg any, env ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "VERIF_CHILD="+name, "VERIF_ARG="+string(mustJSON(arg)))
	c.Env = append(c.Env, env...)
	return c
}

// runChild runs a child to completion; err is its exit error, if any.
func runChild(name string, arg any, out any, env ...string) (stderr string, err error) {
	c := childCmd(name, arg, env...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		panic(err)
	}
	tm := time.AfterFunc(170*time.Second, func() { _ = c.Process.Kill() })
	err = c.Wait()
	tm.Stop()
	if err == nil && out != nil {
		if e := json.Unmarshal(so.Bytes(), out); e != nil {
			return se.String(), fmt.Errorf("bad child output %q: %w", so.String(), e)
		}
	}
	return se.String(), err
}
