package props

import (
	"os/exec"
	"syscall"
)

// setKill makes a child die with the harness.
func setKill(c *exec.Cmd) {
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
}
