package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"

	"verif/kit"
)

// workloads of other checks with the race detector
var programs = []string{"c20", "c21", "c24", "c27", "c28", "c29", "c30", "c31", "c32", "c33", "c34"}

// what is judged here: the rest belongs to the other checks
func judged(key string) bool {
	return strings.HasPrefix(key, "race:") || strings.HasPrefix(key, "panic") || key == "crash" || key == "exit"
}

func workloads(k *kit.K) {
	var root, err = os.MkdirTemp("", "c35")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	// the programs find what they need in the root
	os.Symlink(filepath.Join(kit.Root(), ".build"), filepath.Join(root, ".build"))
	os.Symlink(filepath.Join(kit.Root(), "known_findings.txt"), filepath.Join(root, "known_findings.txt"))
	var next int32 = -1
	parallel(2, func() {
		for i := int(atomic.AddInt32(&next, 1)); i < len(programs) && k.Bad() < 5; i = int(atomic.AddInt32(&next, 1)) {
			workload(k, root, programs[i])
		}
	})
}

func workload(k *kit.K, root, name string) {
	var cmd = exec.Command(filepath.Join(kit.Root(), ".build", "race-"+name))
	for _, e := range os.Environ() {
		var n = strings.SplitN(e, "=", 2)[0]
		if n != "VERIF_CHILD" && n != "GORACE" && n != "VERIF_ROOT" && n != "VERIF_SECONDS" {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_ROOT="+root, fmt.Sprint("VERIF_SECONDS=", k.N(22, 600)))
	var out, err = cmd.CombinedOutput()
	var id = strings.ToUpper(name)
	var replay = filepath.Join(root, "evidence", "replay", id+".json")
	if b, err := os.ReadFile(replay); err == nil {
		var x struct {
			Violations []kit.Violation
		}
		json.Unmarshal(b, &x)
		for _, v := range x.Violations {
			if judged(v.Key) {
				k.Violate(v.Key, "workload of "+id+" "+v.Case, "%s", v.Detail)
			} else {
				k.Count("left_to_"+id+" "+v.Key, 1)
				k.Sample(fmt.Sprintf("workload of %s: left to it: [%s] %.1000s", id, v.Key, v.Detail))
			}
		}
	}
	var ev struct {
		Coverage map[string]interface{}
	}
	var b, e = os.ReadFile(filepath.Join(root, "evidence", id+".json"))
	if e != nil || json.Unmarshal(b, &ev) != nil {
		if len(out) > 1200 {
			out = out[len(out)-1200:]
		}
		k.Sample(fmt.Sprintf("workload of %s: %v\n%s\n", id, err, out))
		return
	}
	if n, ok := ev.Coverage["evaluations"].(float64); ok && n > 0 {
		k.Count("workloads", 1)
		k.Count("workload_executions", int(n))
	}
}
