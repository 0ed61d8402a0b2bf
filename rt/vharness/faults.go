package main

import (
	"errors"
	"strings"
	"syscall"

	"MODULE_PATH/zz_verif/vos"
)

var errIO = errors.New("simulated input/output error")

// inject decides the faults of one machine. Each eligible operation draws from
// the stream: value 0 always means no fault.
type inject struct {
	s     *Stream
	rate  int // one operation out of rate fails
	max   int // at most that many faults
	n     int
	only  func(op vos.Op) bool
	short bool // also split reads (not a failure)
	// flipOK tells where the data read may be altered (nil: everywhere)
	flipOK func(op vos.Op) bool
	hits   []vos.Op
	dead   map[string]error // files that keep failing
}

func (j *inject) fault(op vos.Op) vos.Fault {
	f := vos.NoFault
	if e, ok := j.dead[op.Path]; ok && op.Kind != "close" {
		f.Name, f.Err = "persistent failure on "+op.Kind, e
		j.hits = append(j.hits, op)
		return f
	}
	if j.n < j.max && (j.only == nil || j.only(op)) && j.rate > 0 && j.s.Chance(1, j.rate) {
		if f = j.pick(op); f.Name != "" {
			j.n++
			j.hits = append(j.hits, op)
			return f
		}
	}
	if j.short && op.Kind == "read" && op.N > 1 && j.s.Chance(1, 6) {
		f = vos.NoFault
		f.Name, f.Short = "short read", 1+j.s.Intn(op.N-1)
	}
	return f
}

func (j *inject) pick(op vos.Op) vos.Fault {
	f := vos.NoFault
	switch op.Kind {
	case "open", "create":
		e := []error{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOENT}[j.s.Intn(4)]
		if op.Kind == "create" && j.s.Chance(1, 2) {
			e = syscall.ENOSPC
		}
		f.Name, f.Err = op.Kind+" error", e
	case "read", "readat":
		switch j.s.Intn(3) {
		case 0:
			f.Name, f.Err = "read error", syscall.EIO
		case 1:
			f.Name, f.Err, f.Short = "read error after part of the data", syscall.EIO, j.s.Intn(op.N+1)
		case 2:
			if j.flipOK != nil && !j.flipOK(op) {
				f.Name, f.Err = "read error", syscall.EIO
			} else {
				f.Name, f.Flip, f.Pos, f.Mask = "altered data read", true, j.s.Intn(1<<16), byte(1+j.s.Intn(255))
			}
		}
	case "write":
		switch j.s.Intn(3) {
		case 0:
			f.Name, f.Err = "write error", syscall.EIO
		case 1:
			f.Name, f.Err, f.Short = "disk full after part of the data", syscall.ENOSPC, j.s.Intn(op.N+1)
		case 2:
			if op.N > 1 {
				f.Name, f.Short = "short write", j.s.Intn(op.N)
			} else {
				f.Name, f.Err = "write error", syscall.ENOSPC
			}
		}
	case "close":
		f.Name, f.Err = "close error", syscall.EIO
	case "sync":
		f.Name, f.Err = "sync error", syscall.EIO
	case "readdir", "lstat", "stat", "readlink", "seek", "rename", "remove", "truncate", "mkdir":
		f.Name, f.Err = op.Kind+" error", syscall.EIO
	}
	return f
}

// arm installs the injector on a machine.
func (j *inject) arm(w *vos.World) { w.Inject = j.fault }

func writeSide(op vos.Op) bool {
	switch op.Kind {
	case "create", "write", "sync", "rename", "truncate", "remove":
		return true
	}
	return false
}

// damage returns an altered copy of stored bytes, never equal to the original,
// and what was done.
func damage(s *Stream, data []byte) ([]byte, string) {
	out := append([]byte(nil), data...)
	n := len(out)
	if n == 0 {
		return append(out, 1), "bytes appended"
	}
	var kinds []string
	for k := 1 + s.Intn(3); k > 0; k-- {
		switch s.Weighted(4, 4, 2, 2, 1, 1, 1) {
		case 0:
			out = out[:s.Intn(len(out)+1)]
			kinds = append(kinds, "truncated")
		case 1:
			if len(out) > 0 {
				out[s.Intn(len(out))] ^= byte(1 << uint(s.Intn(8)))
				kinds = append(kinds, "bit flipped")
			}
		case 2: // a sector never reached the disk
			sz := []int{16, 64, 512}[s.Intn(3)]
			if len(out) > 0 {
				o := s.Intn(len(out)) / sz * sz
				for i := o; i < o+sz && i < len(out); i++ {
					out[i] = 0
				}
				kinds = append(kinds, "sector zeroed")
			}
		case 3: // a sector holds the data of another
			sz := []int{16, 64, 512}[s.Intn(3)]
			if len(out) > sz {
				a, b := s.Intn(len(out)-sz+1), s.Intn(len(out)-sz+1)
				copy(out[a:a+sz], append([]byte(nil), data[b%maxi(1, n-sz+1):][:mini(sz, n-b%maxi(1, n-sz+1))]...))
				kinds = append(kinds, "misplaced sector")
			}
		case 4: // bytes lost in the middle
			if len(out) > 1 {
				a := s.Intn(len(out))
				l := 1 + s.Intn(mini(64, len(out)-a))
				out = append(out[:a], out[a+l:]...)
				kinds = append(kinds, "bytes lost")
			}
		case 5:
			if len(out) > 0 {
				out[s.Intn(mini(12, len(out)))] = byte(s.Intn(256))
				kinds = append(kinds, "header altered")
			}
		case 6:
			if len(out) > 0 {
				for i := 0; i < 4; i++ {
					out[s.Intn(len(out))] = byte(s.Intn(256))
				}
				kinds = append(kinds, "bytes altered")
			}
		}
	}
	return out, strings.Join(kinds, ", ")
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// fontFlip allows alterations of the data read in fonts, except in the table
// directories (see saneLengths).
func fontFlip(w *vos.World) func(op vos.Op) bool {
	return func(op vos.Op) bool {
		b, _ := w.Get(op.Path)
		return op.Off >= 600 && !(len(b) > 4 && string(b[:4]) == "ttcf")
	}
}
