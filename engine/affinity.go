package main

import (
	"encoding/json"
	"os"
	"os/exec"
	"runtime"
	"sync/atomic"
	"syscall"
	"unsafe"
)

var nextCPU int32

type cpuMask [16]uint64

func getAffinity() (m cpuMask, ok bool) {
	_, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(m), uintptr(unsafe.Pointer(&m)))
	return m, e == 0
}

func setAffinity(m cpuMask) bool {
	_, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(m), uintptr(unsafe.Pointer(&m)))
	return e == 0
}

// startOn starts the command on n processors, so that runtime.NumCPU() is n there
func startOn(cmd *exec.Cmd, n int) error {
	if n <= 0 {
		return cmd.Start()
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	all, ok := getAffinity()
	if !ok {
		return cmd.Start()
	}
	var few cpuMask
	start := int(atomic.AddInt32(&nextCPU, 1)) * 2 % 1024
	var cpus []int
	for i := 0; i < 1024; i++ {
		if all[i/64]>>(i%64)&1 == 1 {
			cpus = append(cpus, i)
		}
	}
	for k := 0; k < len(cpus) && n > 0; k++ {
		i := cpus[(start+k)%len(cpus)]
		{
			few[i/64] |= 1 << (i % 64)
			n--
		}
	}
	if n > 0 || !setAffinity(few) {
		return cmd.Start() // not that many
	}
	defer setAffinity(all)
	return cmd.Start()
}

// replayCPUs is the number of processors assumed in the encoding of a replay file
func replayCPUs(file string, race bool) int {
	var v struct {
		Params map[string]interface{} `json:"params"`
	}
	b, err := os.ReadFile(file)
	if err != nil || json.Unmarshal(b, &v) != nil {
		return 0
	}
	if n, ok := v.Params["cpus"].(float64); ok {
		return int(n)
	}
	if race {
		return 0
	}
	return 2
}
