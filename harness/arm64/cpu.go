//go:build go1.24

// Package arm64 runs functions of an arm64 executable, one instruction at a
// time, over a memory made of exactly the buffers they were given. It knows
// the integer and the few vector instructions such code uses; anything else
// ends the run as undecided, never as a verdict.
package arm64

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"math/bits"
	"strings"
)

// Image is a loaded executable.
type Image struct {
	segs []seg
	syms map[string]uint64
	at   map[uint64]string
}

type seg struct {
	base uint64
	mem  []byte
	code bool
}

func Load(path string) (*Image, error) {
	f, err := elf.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	im := &Image{syms: map[string]uint64{}, at: map[uint64]string{}}
	for _, p := range f.Progs {
		if p.Type != elf.PT_LOAD {
			continue
		}
		m := make([]byte, p.Memsz)
		if _, err := p.ReadAt(m[:p.Filesz], 0); err != nil {
			return nil, err
		}
		im.segs = append(im.segs, seg{p.Vaddr, m, p.Flags&elf.PF_X != 0})
	}
	ss, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	for _, s := range ss {
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			im.syms[s.Name] = s.Value
			im.at[s.Value] = s.Name
		}
	}
	return im, nil
}

func (im *Image) Sym(name string) (uint64, bool) { v, ok := im.syms[name]; return v, ok }

// Region is memory the code may use.
type Region struct {
	Name string
	Base uint64
	Mem  []byte
}

// CPU is the state of one run.
type CPU struct {
	R          [32]uint64 // 31 is SP
	V          [32][16]byte
	PC         uint64
	n, z, c, v bool
	im         *Image
	Regions    []Region
	Steps      int
	Loads      int
	Stores     int
}

// Stop says why a run ended early.
type Stop struct {
	Kind string // "panic", "access", "undecided"
	Text string
}

func (s *Stop) Error() string { return s.Kind + ": " + s.Text }

const Exit = 0x7fff00000000 // return address of the first call

func New(im *Image, regions ...Region) *CPU { return &CPU{im: im, Regions: regions} }

func (c *CPU) mem(addr uint64, n int, store bool) []byte {
	for i := range c.Regions {
		r := &c.Regions[i]
		if addr >= r.Base && addr+uint64(n) <= r.Base+uint64(len(r.Mem)) {
			return r.Mem[addr-r.Base:][:n]
		}
	}
	if !store {
		for _, s := range c.im.segs {
			if addr >= s.base && addr+uint64(n) <= s.base+uint64(len(s.mem)) {
				return s.mem[addr-s.base:][:n]
			}
		}
	}
	what := "read"
	if store {
		what = "write"
	}
	near := ""
	for _, r := range c.Regions {
		if d := int64(addr - r.Base); d > -4096 && d < int64(len(r.Mem))+4096 {
			near += fmt.Sprintf(" (%s%+d of %d)", r.Name, d, len(r.Mem))
		}
	}
	panic(&Stop{"access", fmt.Sprintf("%s of %d bytes at %#x%s", what, n, addr, near)})
}

func (c *CPU) load(addr uint64, n int) uint64 {
	c.Loads++
	var b [8]byte
	copy(b[:], c.mem(addr, n, false))
	return binary.LittleEndian.Uint64(b[:])
}

func (c *CPU) store(addr uint64, n int, v uint64) {
	c.Stores++
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	copy(c.mem(addr, n, true), b[:n])
}

func (c *CPU) x(r uint32) uint64 { // 31 is zero
	if r == 31 {
		return 0
	}
	return c.R[r]
}

func (c *CPU) set(r uint32, v uint64) {
	if r != 31 {
		c.R[r] = v
	}
}

func undecided(f string, a ...any) { panic(&Stop{"undecided", fmt.Sprintf(f, a...)}) }

func sext(v uint64, n uint) int64 { return int64(v<<(64-n)) >> (64 - n) }

func (c *CPU) addFlags(a, b uint64, carry uint64, sf bool, setf bool) uint64 {
	if sf {
		s, c1 := bits.Add64(a, b, carry)
		if setf {
			c.n, c.z, c.c = int64(s) < 0, s == 0, c1 == 1
			c.v = (a^s)&(b^s)>>63 == 1
		}
		return s
	}
	a, b = uint64(uint32(a)), uint64(uint32(b))
	w := a + b + carry
	s := uint32(w)
	if setf {
		c.n, c.z, c.c = int32(s) < 0, s == 0, w>>32 != 0
		c.v = (uint32(a)^s)&(uint32(b)^s)>>31 == 1
	}
	return uint64(s)
}

func (c *CPU) cond(k uint32) bool {
	var r bool
	switch k >> 1 {
	case 0:
		r = c.z
	case 1:
		r = c.c
	case 2:
		r = c.n
	case 3:
		r = c.v
	case 4:
		r = c.c && !c.z
	case 5:
		r = c.n == c.v
	case 6:
		r = c.n == c.v && !c.z
	default:
		return true
	}
	return r != (k&1 == 1)
}

func shift(v uint64, kind, n uint32, sf bool) uint64 {
	if !sf {
		w := uint32(v)
		switch kind {
		case 0:
			return uint64(w << n)
		case 1:
			return uint64(w >> n)
		case 2:
			return uint64(uint32(int32(w) >> n))
		}
		return uint64(bits.RotateLeft32(w, -int(n)))
	}
	switch kind {
	case 0:
		return v << n
	case 1:
		return v >> n
	case 2:
		return uint64(int64(v) >> n)
	}
	return bits.RotateLeft64(v, -int(n))
}

// masks decodes a logical immediate (and the masks of a bit-field move).
func masks(n, imms, immr uint32) (wmask, tmask uint64, ok bool) {
	l := 31 - bits.LeadingZeros32(n<<6|^imms&0x3f)
	if l < 1 {
		return 0, 0, false
	}
	lv := uint32(1)<<l - 1
	s, r := imms&lv, immr&lv
	d := (s - r) & lv
	esize := uint(1) << l
	ones := func(k uint32) uint64 {
		if k >= 64 {
			return ^uint64(0)
		}
		return uint64(1)<<k - 1
	}
	rep := func(v uint64) uint64 {
		out := uint64(0)
		for i := uint(0); i < 64; i += esize {
			out |= v << i
		}
		return out
	}
	e := ones(s + 1)
	em := ones(uint32(esize))
	w := e
	if r != 0 {
		w = (e>>r | e<<(uint32(esize)-r)) & em
	}
	return rep(w), rep(ones(d+1) & em), true
}

// Call runs the function at addr until it returns.
func (c *CPU) Call(addr uint64, limit int) (stop *Stop) {
	defer func() {
		if p := recover(); p != nil {
			s, ok := p.(*Stop)
			if !ok {
				panic(p)
			}
			stop = s
		}
	}()
	c.PC = addr
	c.R[30] = Exit
	for c.PC != Exit {
		if c.Steps++; c.Steps > limit {
			return &Stop{"loop", "does not return"}
		}
		c.step()
	}
	return nil
}

func (c *CPU) call(target uint64) {
	name := c.im.at[target]
	if strings.HasPrefix(name, "runtime.") {
		if strings.HasPrefix(name, "runtime.panic") || strings.HasPrefix(name, "runtime.gopanic") {
			panic(&Stop{"panic", name})
		}
		if !strings.HasPrefix(name, "runtime.memmove") && !strings.HasPrefix(name, "runtime.memequal") {
			undecided("call of %s", name)
		}
	}
	c.R[30] = c.PC + 4
	c.PC = target
}

func (c *CPU) fetch() uint32 {
	for _, s := range c.im.segs {
		if s.code && c.PC >= s.base && c.PC+4 <= s.base+uint64(len(s.mem)) {
			return binary.LittleEndian.Uint32(s.mem[c.PC-s.base:])
		}
	}
	undecided("jump to %#x", c.PC)
	return 0
}

func (c *CPU) step() {
	i := c.fetch()
	next := c.PC + 4
	rd, rn, rm := i&31, i>>5&31, i>>16&31
	sf := i>>31 == 1
	trunc := func(v uint64) uint64 {
		if sf {
			return v
		}
		return uint64(uint32(v))
	}
	switch {
	case i == 0xd503201f || i&0xfffff01f == 0xd503201f: // hint
	case i&0x7c000000 == 0x14000000: // B, BL
		t := c.PC + uint64(sext(uint64(i&0x3ffffff), 26)*4)
		if i>>31 == 1 {
			c.call(t)
			return
		}
		next = t
	case i&0xff000010 == 0x54000000: // B.cond
		if c.cond(i & 15) {
			next = c.PC + uint64(sext(uint64(i>>5&0x7ffff), 19)*4)
		}
	case i&0x7e000000 == 0x34000000: // CBZ, CBNZ
		if (trunc(c.x(rd)) == 0) == (i>>24&1 == 0) {
			next = c.PC + uint64(sext(uint64(i>>5&0x7ffff), 19)*4)
		}
	case i&0x7e000000 == 0x36000000: // TBZ, TBNZ
		b := i>>31<<5 | i>>19&31
		if (c.x(rd)>>b&1 == 0) == (i>>24&1 == 0) {
			next = c.PC + uint64(sext(uint64(i>>5&0x3fff), 14)*4)
		}
	case i&0xfffffc1f == 0xd65f0000 || i&0xfffffc1f == 0xd61f0000: // RET, BR
		next = c.x(rn)
	case i&0xfffffc1f == 0xd63f0000: // BLR
		c.call(c.x(rn))
		return
	case i&0x1f000000 == 0x10000000: // ADR, ADRP
		imm := uint64(i>>5&0x7ffff)<<2 | uint64(i>>29&3)
		if sf {
			c.set(rd, c.PC&^0xfff+uint64(sext(imm, 21)<<12))
		} else {
			c.set(rd, c.PC+uint64(sext(imm, 21)))
		}
	case i&0x1f800000 == 0x11000000: // ADD, SUB immediate
		imm := uint64(i >> 10 & 0xfff)
		if i>>22&1 == 1 {
			imm <<= 12
		}
		a := trunc(c.R[rn])
		var r uint64
		if i>>30&1 == 0 {
			r = c.addFlags(a, imm, 0, sf, i>>29&1 == 1)
		} else {
			r = c.addFlags(a, ^imm, 1, sf, i>>29&1 == 1)
		}
		if i>>29&1 == 1 {
			c.set(rd, r)
		} else {
			c.R[rd] = r
		}
	case i&0x1f200000 == 0x0b000000: // ADD, SUB shifted register
		b := shift(c.x(rm), i>>22&3, i>>10&63, sf)
		if i>>30&1 == 0 {
			c.set(rd, c.addFlags(c.x(rn), b, 0, sf, i>>29&1 == 1))
		} else {
			c.set(rd, c.addFlags(c.x(rn), ^b, 1, sf, i>>29&1 == 1))
		}
	case i&0x1fe00000 == 0x0b200000: // ADD, SUB extended register
		b := extend(c.x(rm), i>>13&7) << (i >> 10 & 7)
		var r uint64
		if i>>30&1 == 0 {
			r = c.addFlags(c.R[rn], b, 0, sf, i>>29&1 == 1)
		} else {
			r = c.addFlags(c.R[rn], ^b, 1, sf, i>>29&1 == 1)
		}
		if i>>29&1 == 1 {
			c.set(rd, r)
		} else {
			c.R[rd] = r
		}
	case i&0x1f000000 == 0x0a000000: // logical shifted register
		b := shift(c.x(rm), i>>22&3, i>>10&63, sf)
		if i>>21&1 == 1 {
			b = ^b
		}
		c.set(rd, c.logic(i>>29&3, c.x(rn), b, sf))
	case i&0x1f800000 == 0x12000000: // logical immediate
		w, _, ok := masks(i>>22&1, i>>10&63, i>>16&63)
		if !ok {
			undecided("%08x", i)
		}
		r := c.logic(i>>29&3, c.x(rn), w, sf)
		if i>>29&3 == 3 {
			c.set(rd, r)
		} else {
			c.R[rd] = r
		}
	case i&0x1f800000 == 0x12800000: // MOVN, MOVZ, MOVK
		sh := i >> 21 & 3 * 16
		imm := uint64(i>>5&0xffff) << sh
		switch i >> 29 & 3 {
		case 0:
			c.set(rd, trunc(^imm))
		case 2:
			c.set(rd, trunc(imm))
		case 3:
			c.set(rd, trunc(c.x(rd)&^(0xffff<<sh)|imm))
		default:
			undecided("%08x", i)
		}
	case i&0x1f800000 == 0x13000000: // SBFM, BFM, UBFM
		w, t, ok := masks(i>>22&1, i>>10&63, i>>16&63)
		if !ok {
			undecided("%08x", i)
		}
		if !sf {
			w, t = uint64(uint32(w)), uint64(uint32(t))
		}
		src := shift(trunc(c.x(rn)), 3, i>>16&63, sf)
		switch i >> 29 & 3 {
		case 0:
			top := uint64(0)
			if c.x(rn)>>(i>>10&63)&1 == 1 {
				top = ^uint64(0)
			}
			c.set(rd, trunc(top&^t|src&w&t))
		case 1:
			d := c.x(rd)
			c.set(rd, trunc(d&^t|(d&^w|src&w)&t))
		case 2:
			c.set(rd, trunc(src&w&t))
		default:
			undecided("%08x", i)
		}
	case i&0x1fe00000 == 0x1a800000: // CSEL, CSINC, CSINV, CSNEG
		v := c.x(rn)
		if !c.cond(i >> 12 & 15) {
			v = c.x(rm)
			switch i>>30&1<<1 | i>>10&1 {
			case 1:
				v++
			case 2:
				v = ^v
			case 3:
				v = -v
			}
		}
		c.set(rd, trunc(v))
	case i&0x3fe00c10 == 0x3a400000 || i&0x3fe00c10 == 0x3a400800: // CCMN, CCMP
		b := c.x(rm)
		if i>>11&1 == 1 {
			b = uint64(rm)
		}
		if c.cond(i >> 12 & 15) {
			if i>>30&1 == 0 {
				c.addFlags(c.x(rn), b, 0, sf, true)
			} else {
				c.addFlags(c.x(rn), ^b, 1, sf, true)
			}
		} else {
			c.n, c.z, c.c, c.v = i>>3&1 == 1, i>>2&1 == 1, i>>1&1 == 1, i&1 == 1
		}
	case i&0x7fe00000 == 0x1b000000: // MADD, MSUB
		p := c.x(rn) * c.x(rm)
		if i>>15&1 == 1 {
			p = -p
		}
		c.set(rd, trunc(c.x(i>>10&31)+p))
	case i&0x7fe0f000 == 0x1ac02000: // LSLV, LSRV, ASRV, RORV
		n := uint32(63)
		if !sf {
			n = 31
		}
		c.set(rd, shift(c.x(rn), i>>10&3, uint32(c.x(rm))&n, sf))
	case i&0x7fe0f800 == 0x1ac00800: // UDIV, SDIV
		a, b := trunc(c.x(rn)), trunc(c.x(rm))
		switch {
		case b == 0:
			c.set(rd, 0)
		case i>>10&1 == 0:
			c.set(rd, a/b)
		case sf:
			c.set(rd, uint64(int64(a)/int64(b)))
		default:
			c.set(rd, uint64(uint32(int32(a)/int32(b))))
		}
	case i&0x3a000000 == 0x28000000: // LDP, STP
		c.pair(i)
	case i&0x3b000000 == 0x39000000: // LDR, STR unsigned offset
		c.single(i, c.R[rn], uint64(i>>10&0xfff), true)
	case i&0x3b200000 == 0x38000000: // unscaled, post, pre
		off := uint64(sext(uint64(i>>12&0x1ff), 9))
		switch i >> 10 & 3 {
		case 0:
			c.single(i, c.R[rn], off, false)
		case 1:
			a := c.R[rn]
			c.single(i, a, 0, false)
			c.R[rn] = a + off
		case 3:
			a := c.R[rn] + off
			c.single(i, a, 0, false)
			c.R[rn] = a
		default:
			undecided("%08x at %#x", i, c.PC)
		}
	case i&0x3b200c00 == 0x38200800: // register offset
		off := extend(c.x(rm), i>>13&7)
		if i>>12&1 == 1 {
			off <<= scale(i)
		}
		c.single(i, c.R[rn], off, false)
	case i&0xbfbf0000 == 0x0c000000 && rm == 0 || i&0xbfa00000 == 0x0c800000: // LD1, ST1 multiple
		c.multi(i)
	case i&0xbf20fc00 == 0x2e201c00 && i>>22&3 == 0: // EOR vector
		c.vec(i, func(a, b byte) byte { return a ^ b })
	case i&0xbf20fc00 == 0x0e201c00 && i>>22&3 == 0:
		c.vec(i, func(a, b byte) byte { return a & b })
	case i&0xbf20fc00 == 0x0e201c00 && i>>22&3 == 1:
		c.vec(i, func(a, b byte) byte { return a &^ b })
	case i&0xbf20fc00 == 0x0e201c00 && i>>22&3 == 2:
		c.vec(i, func(a, b byte) byte { return a | b })
	default:
		undecided("instruction %08x at %#x", i, c.PC)
	}
	c.PC = next
}

func extend(v uint64, o uint32) uint64 {
	switch o {
	case 0:
		return uint64(uint8(v))
	case 1:
		return uint64(uint16(v))
	case 2:
		return uint64(uint32(v))
	case 4:
		return uint64(int64(int8(v)))
	case 5:
		return uint64(int64(int16(v)))
	case 6:
		return uint64(int64(int32(v)))
	}
	return v
}

func (c *CPU) logic(op uint32, a, b uint64, sf bool) uint64 {
	var r uint64
	switch op {
	case 0, 3:
		r = a & b
	case 1:
		r = a | b
	case 2:
		r = a ^ b
	}
	if !sf {
		r = uint64(uint32(r))
	}
	if op == 3 {
		c.z, c.c, c.v = r == 0, false, false
		if sf {
			c.n = int64(r) < 0
		} else {
			c.n = int32(r) < 0
		}
	}
	return r
}

// scale is the log of the access size of a load or store.
func scale(i uint32) uint32 {
	s := i >> 30
	if i>>26&1 == 1 && i>>23&1 == 1 {
		s = 4
	}
	return s
}

func (c *CPU) single(i uint32, base, off uint64, scaled bool) {
	rt := i & 31
	s := scale(i)
	if scaled {
		off <<= s
	}
	a := base + off
	n := 1 << s
	if i>>26&1 == 1 { // vector registers
		if i>>22&1 == 1 {
			var v [16]byte
			c.Loads++
			copy(v[:], c.mem(a, n, false))
			c.V[rt] = v
		} else {
			c.Stores++
			copy(c.mem(a, n, true), c.V[rt][:n])
		}
		return
	}
	switch i >> 22 & 3 {
	case 0:
		c.store(a, n, c.x(rt))
	case 1:
		c.set(rt, c.load(a, n))
	case 2:
		if s == 3 {
			return // prefetch
		}
		c.set(rt, uint64(sext(c.load(a, n), uint(8*n))))
	case 3:
		if s > 1 {
			undecided("%08x", i)
		}
		c.set(rt, uint64(uint32(sext(c.load(a, n), uint(8*n)))))
	}
}

func (c *CPU) pair(i uint32) {
	rt, rn, rt2 := i&31, i>>5&31, i>>10&31
	vecr := i>>26&1 == 1
	opc := i >> 30
	var s uint32
	switch {
	case vecr:
		s = 2 + opc
	case opc == 0:
		s = 2
	case opc == 2:
		s = 3
	default:
		undecided("%08x", i)
	}
	off := uint64(sext(uint64(i>>15&0x7f), 7)) << s
	a := c.R[rn]
	mode := i >> 23 & 3
	if mode == 2 || mode == 3 {
		a += off
	}
	n := 1 << s
	if i>>22&1 == 1 {
		if vecr {
			for k, r := range []uint32{rt, rt2} {
				var v [16]byte
				c.Loads++
				copy(v[:], c.mem(a+uint64(k*n), n, false))
				c.V[r] = v
			}
		} else {
			v := c.load(a, n)
			w := c.load(a+uint64(n), n)
			c.set(rt, v)
			c.set(rt2, w)
		}
	} else {
		if vecr {
			for k, r := range []uint32{rt, rt2} {
				c.Stores++
				copy(c.mem(a+uint64(k*n), n, true), c.V[r][:n])
			}
		} else {
			c.store(a, n, c.x(rt))
			c.store(a+uint64(n), n, c.x(rt2))
		}
	}
	switch mode {
	case 1:
		c.R[rn] += off
	case 3:
		c.R[rn] = a
	}
}

func (c *CPU) multi(i uint32) {
	var regs uint32
	switch i >> 12 & 15 {
	case 2:
		regs = 4
	case 6:
		regs = 3
	case 7:
		regs = 1
	case 10:
		regs = 2
	default:
		undecided("%08x", i)
	}
	n := 8 << (i >> 30 & 1)
	rt, rn, rm := i&31, i>>5&31, i>>16&31
	a := c.R[rn]
	for k := uint32(0); k < regs; k++ {
		r := (rt + k) & 31
		if i>>22&1 == 1 {
			var v [16]byte
			c.Loads++
			copy(v[:], c.mem(a, n, false))
			c.V[r] = v
		} else {
			c.Stores++
			copy(c.mem(a, n, true), c.V[r][:n])
		}
		a += uint64(n)
	}
	if i>>23&1 == 1 {
		if rm == 31 {
			c.R[rn] = a
		} else {
			c.R[rn] += c.R[rm]
		}
	}
}

func (c *CPU) vec(i uint32, f func(a, b byte) byte) {
	n := 8 << (i >> 30 & 1)
	var out [16]byte
	for k := 0; k < n; k++ {
		out[k] = f(c.V[i>>5&31][k], c.V[i>>16&31][k])
	}
	c.V[i&31] = out
}

// SymsOf lists the functions whose name contains s.
func (im *Image) SymsOf(s string) (out []string) {
	for n := range im.syms {
		if strings.Contains(n, s) {
			out = append(out, n)
		}
	}
	return
}
