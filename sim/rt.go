package main

// Runtime seams. Node code reads the wall clock through time.Now, and Go
// randomises map iteration order, hash seeds, select order and math/rand
// through runtime.rand / runtime.bootstrapRand. After the simulator is linked,
// `sim patch` replaces these three functions in the executable by small stubs
// that read rtMem, which the simulator sets: wall clock and runtime randomness
// become part of the seed. Monotonic time stays real (it only feeds timeouts
// that the simulated components never reach).

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"os"
	"time"

	"golang.org/x/sys/unix"
)

// layout: [0] rand state, [1] seconds, [2] nanoseconds, [3] monotonic, [4] bootstrap rand state, [5] patched marker
var rtMem [8]uint64

func runtimeNanotime() int64 {
	var ts unix.Timespec
	_ = unix.ClockGettime(unix.CLOCK_MONOTONIC, &ts)
	return ts.Nano()
}

func imm64(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }

func splitmixStub(state uint64) []byte {
	var c []byte
	c = imm64(append(c, 0x48, 0xB9), state)              // mov rcx, &state
	c = imm64(append(c, 0x48, 0xB8), 0x9E3779B97F4A7C15) // mov rax, golden
	c = append(c, 0xF0, 0x48, 0x0F, 0xC1, 0x01)          // lock xadd [rcx], rax
	mix := func(sh byte) {
		c = append(c, 0x48, 0x89, 0xC1, 0x48, 0xC1, 0xE9, sh, 0x48, 0x31, 0xC8) // mov rcx,rax; shr rcx,sh; xor rax,rcx
	}
	mul := func(k uint64) {
		c = imm64(append(c, 0x48, 0xB9), k)
		c = append(c, 0x48, 0x0F, 0xAF, 0xC1) // imul rax, rcx
	}
	mix(30)
	mul(0xBF58476D1CE4E5B9)
	mix(27)
	mul(0x94D049BB133111EB)
	mix(31)
	return append(c, 0xC3)
}

// patchExecutable rewrites the three runtime functions of the executable `in`
// and stores the result in `out`.
func patchExecutable(in, out string) error {
	f, err := elf.Open(in)
	if err != nil {
		return err
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return err
	}
	addr := map[string][2]uint64{}
	for _, s := range syms {
		switch s.Name {
		case "runtime.rand", "runtime.bootstrapRand", "time.now", "main.rtMem":
			addr[s.Name] = [2]uint64{s.Value, s.Size}
		}
	}
	base, ok := addr["main.rtMem"]
	if !ok {
		return fmt.Errorf("main.rtMem not found")
	}
	data, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	put := func(name string, code []byte) error {
		a, ok := addr[name]
		if !ok {
			return fmt.Errorf("%s not found", name)
		}
		if a[1] != 0 && uint64(len(code)) > a[1] {
			return fmt.Errorf("%s too small: %d > %d", name, len(code), a[1])
		}
		for _, p := range f.Progs {
			if p.Type == elf.PT_LOAD && a[0] >= p.Vaddr && a[0] < p.Vaddr+p.Filesz {
				copy(data[p.Off+a[0]-p.Vaddr:], code)
				return nil
			}
		}
		return fmt.Errorf("%s not in a loaded segment", name)
	}
	if err := put("runtime.rand", splitmixStub(base[0])); err != nil {
		return err
	}
	if err := put("runtime.bootstrapRand", splitmixStub(base[0]+32)); err != nil {
		return err
	}
	var d []byte
	d = imm64(append(d, 0x48, 0xB9), base[0]) // mov rcx, &state
	d = append(d, 0x48, 0x8B, 0x41, 0x08)     // mov rax,[rcx+8]
	d = append(d, 0x48, 0x8B, 0x59, 0x10)     // mov rbx,[rcx+16]
	d = append(d, 0x48, 0x8B, 0x49, 0x18)     // mov rcx,[rcx+24]
	d = append(d, 0xC3)
	if err := put("time.now", d); err != nil {
		return err
	}
	return os.WriteFile(out, data, 0o755)
}

// rtPatched tells whether this executable went through `sim patch`.
func rtPatched() bool {
	rtMem[1], rtMem[2], rtMem[3] = 12345, 678, uint64(runtimeNanotime())
	t := time.Now()
	return t.Unix() == 12345 && t.Nanosecond() == 678
}

// rtEnter makes the wall clock read t and the runtime random stream start at
// seed until the next call.
func rtEnter(seed uint64, t time.Time) {
	rtMem[0] = seed
	rtMem[1] = uint64(t.Unix())
	rtMem[2] = uint64(t.Nanosecond())
	rtMem[3] = uint64(runtimeNanotime())
}

func realNow() time.Duration { return time.Duration(runtimeNanotime()) }
