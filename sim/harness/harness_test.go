package harness

import (
	"os"
	"runtime/pprof"
	"testing"
	"testing/synctest"
	"time"
)

func TestMain(m *testing.M) {
	// The simulator identifies its tasks by their profiler labels.
	os.Setenv("DD_PROFILING_CODE_HOTSPOTS_COLLECTION_ENABLED", "false")
	os.Setenv("DD_PROFILING_ENDPOINT_COLLECTION_ENABLED", "false")
	setup(os.Args[1:])
	os.Args = []string{os.Args[0], "-test.run=^TestSim$", "-test.timeout=0"}
	os.Exit(m.Run())
}

// TestSim hosts the simulation: a bubble in which time is simulated.
func TestSim(t *testing.T) {
	if f := os.Getenv("SIM_CPUPROFILE"); f != "" {
		out, _ := os.Create(f)
		_ = pprof.StartCPUProfile(out)
		time.AfterFunc(10*time.Second, pprof.StopCPUProfile)
	}
	synctest.Test(t, func(*testing.T) {
		os.Exit(work())
	})
}
