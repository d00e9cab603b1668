package mon

import (
	"os"
	"os/exec"
	"time"

	"github.com/anishathalye/porcupine"
)

// Procs are workloads run in processes of their own (to be killed, limited, or isolated).
var Procs = map[string]func(args []string){}

// Proc prepares a subprocess running Procs[name].
func (c *Ctx) Proc(name string, args ...string) *exec.Cmd {
	self, _ := os.Executable()
	cmd := exec.Command(self, append([]string{"-worker", name}, args...)...)
	cmd.Dir = c.Scratch
	cmd.Env = os.Environ()
	return cmd
}

var epoch = time.Now()

// Now is a monotonic clock that adds no synchronization (so it hides no race from the detector).
func Now() int64 { return int64(time.Since(epoch)) }

// Linearizable decides a recorded history; an undecided one makes the run inconclusive.
func (c *Ctx) Linearizable(m porcupine.Model, ops []porcupine.Operation, sig string, show func() string) {
	switch porcupine.CheckOperationsTimeout(m, ops, 60*time.Second) {
	case porcupine.Illegal:
		c.Violate(sig, "history has no linearization:\n%s", show())
	case porcupine.Unknown:
		c.Count("linearizability_undecided", 1)
		c.Inconclusive("%s: linearizability search did not finish", sig)
	default:
		c.Count("linearizable_histories", 1)
		c.Count("linearizable_ops", int64(len(ops)))
	}
}
