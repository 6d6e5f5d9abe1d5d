package verifsim

import (
	"debug/elf"
	"fmt"
	"os"
	"sort"
	"strings"
	"unsafe"
)

// The program keeps state in package level variables. Several simulated
// processes share one address space, so those variables are saved and restored
// whenever the simulator switches process; a new process gets the pristine
// image and re-runs the packages' init functions.

type region struct {
	addr uintptr
	n    int // words
	off  int // word offset in an image
}

var (
	regions    []region
	imageWords int
	pristine   []unsafe.Pointer
	initFuncs  []uintptr // addresses of words holding the function entry pc
)

var swapPrefixes = []string{
	"github.com/aarondl/bpass.", "github.com/aarondl/bpass/",
	"github.com/aarondl/color.", "github.com/integrii/flaggy.",
}

func swappable(name string) bool {
	if strings.HasPrefix(name, "github.com/aarondl/bpass/verifsim") {
		return false
	}
	if strings.Contains(name, "..inittask") || strings.Contains(name, "..typeAssert") ||
		strings.Contains(name, "..interfaceSwitch") || strings.Contains(name, "..dict") {
		return false
	}
	for _, p := range swapPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func setupGlobals() error {
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	f, err := elf.Open(exe)
	if err != nil {
		return err
	}
	defer f.Close()
	if f.Type != elf.ET_EXEC {
		return fmt.Errorf("test binary is not a fixed-address executable")
	}
	syms, err := f.Symbols()
	if err != nil {
		return err
	}
	dataSec := map[elf.SectionIndex]bool{}
	for i, s := range f.Sections {
		if s.Flags&elf.SHF_WRITE != 0 && s.Flags&elf.SHF_ALLOC != 0 {
			dataSec[elf.SectionIndex(i)] = true
		}
	}
	type span struct{ a, b uintptr }
	var spans []span
	tasks := map[uintptr]string{}
	var allTasks span
	found := 0
	for _, s := range syms {
		if strings.HasSuffix(s.Name, "..inittask") {
			tasks[uintptr(s.Value)] = strings.TrimSuffix(s.Name, "..inittask") + "."
		}
		if s.Name == "go:main.inittasks" {
			allTasks = span{uintptr(s.Value), uintptr(s.Value + s.Size)}
		}
		if s.Size == 0 || !dataSec[s.Section] || !swappable(s.Name) {
			continue
		}
		found++
		a := uintptr(s.Value) &^ 7
		b := (uintptr(s.Value+s.Size) + 7) &^ 7
		spans = append(spans, span{a, b})
	}
	if found == 0 || allTasks.a == 0 {
		return fmt.Errorf("cannot find the program's variables in the symbol table")
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	var merged []span
	for _, s := range spans {
		if len(merged) > 0 && s.a <= merged[len(merged)-1].b {
			if s.b > merged[len(merged)-1].b {
				merged[len(merged)-1].b = s.b
			}
			continue
		}
		merged = append(merged, s)
	}
	for _, s := range merged {
		n := int(s.b-s.a) / 8
		regions = append(regions, region{s.a, n, imageWords})
		imageWords += n
	}
	for p := allTasks.a; p < allTasks.b; p += 8 {
		task := *(*uintptr)(unsafe.Pointer(p))
		name, ok := tasks[task]
		if !ok || !swappable(name) {
			continue
		}
		nfns := *(*uint32)(unsafe.Pointer(task + 4))
		for i := uint32(0); i < nfns; i++ {
			initFuncs = append(initFuncs, task+8+uintptr(i)*8)
		}
	}
	pristine = saveGlobals(nil)
	return nil
}

func saveGlobals(img []unsafe.Pointer) []unsafe.Pointer {
	if img == nil {
		img = make([]unsafe.Pointer, imageWords)
	}
	for _, r := range regions {
		src := unsafe.Slice((*unsafe.Pointer)(unsafe.Pointer(r.addr)), r.n)
		copy(img[r.off:r.off+r.n], src)
	}
	return img
}

func loadGlobals(img []unsafe.Pointer) {
	for _, r := range regions {
		dst := unsafe.Slice((*unsafe.Pointer)(unsafe.Pointer(r.addr)), r.n)
		copy(dst, img[r.off:r.off+r.n])
	}
}

// runInits re-runs the program's package initialisers, in order.
func runInits() {
	for _, w := range initFuncs {
		fv := unsafe.Pointer(w)
		fn := *(*func())(unsafe.Pointer(&fv))
		fn()
	}
}
