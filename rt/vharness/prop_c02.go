package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	stdio "io"

	fc "MODULE_PATH/fontconfig"
	"MODULE_PATH/zz_verif/vos"
)

// runC02 damages a saved cache, or fails its reading, and loads it: an error,
// or exactly what was saved.
func runC02(c *Ctx) {
	s := c.S("prog")
	fl := c.S("fault")
	io := c.S("io")
	fs := genSet(c, s)
	want := dumpSet(fs)
	setOrder(c.S("order"))
	mw := &memWriter{fail: -1}
	var err error
	c.Guard("Serialize", opBudget, func() { err = fs.Serialize(mw) })
	if err != nil {
		c.Fail("save refused", "Serialize of %d patterns on a healthy stream: %v", len(fs), err)
	}
	good := mw.buf
	c.Note("set of %d patterns, %d bytes", len(fs), len(good))
	c.State(mix(hashStrings(want), uint64(len(good))))

	for k := s.Range(1, 6); k > 0; k-- {
		data := good
		what := "intact"
		if fl.Chance(1, 4) {
			// what was compressed was itself damaged: nothing tells it, but it
			// is read as something, or refused
			data, what = rewrite(fl, good)
			c.Note("damage: %s", what)
			c.Count("fault:stored bytes damaged before compression", 1)
			c.faultN++
			var got fc.Fontset
			c.Guard("LoadFontset", opBudget, func() {
				got, err = fc.LoadFontset(newChunkReader(io, data))
				for _, p := range got {
					_ = p.String()
				}
			})
			c.NonTrivial()
			continue
		}
		if fl.Chance(3, 4) {
			data, what = damage(fl, good)
			c.Count("fault:stored bytes damaged", 1)
			c.faultN++
		}
		c.Note("damage: %s, %d bytes left", what, len(data))
		var got fc.Fontset
		failed := false
		switch fl.Weighted(3, 2, 3) {
		case 0:
			r := newChunkReader(io, data)
			c.Guard("LoadFontset", opBudget, func() { got, err = fc.LoadFontset(r) })
		case 1:
			r := newChunkReader(io, data)
			r.at, r.err = fl.Intn(len(data)+1), errIO
			c.Guard("LoadFontset", opBudget, func() { got, err = fc.LoadFontset(r) })
			failed = r.fired
			if failed {
				c.Count("fault:stream read error", 1)
				c.faultN++
			}
		default:
			wd := c.World()
			wd.PutFile("/cache/fonts", data)
			j := &inject{s: fl, rate: 3, max: 2, short: true}
			j.arm(wd)
			c.Guard("LoadFontsetFile", opBudget, func() { got, err = fc.LoadFontsetFile("/cache/fonts") })
			c.Faults(wd)
			vos.Use(nil)
		}
		if !bytes.Equal(data, good) || failed {
			c.NonTrivial()
		}
		if err == nil {
			c.Count("damaged caches loading as saved", 1)
			if d := diffStrings(want, dumpSet(got)); d != "" {
				c.Fail("damaged cache misread", "a cache whose bytes are %s loads without error as another set: %s", what, d)
			}
		} else {
			c.Count("damaged caches refused", 1)
			if len(got) != 0 {
				c.Count("partial sets returned with an error", 1)
			}
			if what == "intact" && !failed && c.faultN == 0 {
				c.Fail("load refused", "loading an intact cache fails: %v", err)
			}
		}
		c.Note("%s", fmt.Sprint(err == nil))
	}
}

// rewrite damages what is compressed in a cache, the lengths it holds above all.
func rewrite(s *Stream, cache []byte) ([]byte, string) {
	r, err := gzip.NewReader(bytes.NewReader(cache))
	if err != nil {
		harnessBug("not a compressed cache: %v", err)
	}
	b, err := stdio.ReadAll(r)
	if err != nil {
		harnessBug("not a compressed cache: %v", err)
	}
	what := ""
	for k := s.Range(1, 3); k > 0; k-- {
		if len(b) < 8 {
			break
		}
		i := s.Intn(len(b) - 4)
		switch s.Intn(6) {
		case 0, 1: // a length is a bit off
			n := binary.BigEndian.Uint16(b[i:])
			binary.BigEndian.PutUint16(b[i:], n+uint16(s.Range(-5, 5)))
			what += " small change"
		case 2:
			b = b[:s.Intn(len(b)+1)]
			what += " truncated"
		case 3:
			b[i] ^= byte(1 << uint(s.Intn(8)))
			what += " bit flipped"
		case 4: // the last part of a pattern: the size is right, what is inside is not
			size := 4
			for n := 0; n < 3; n++ {
				if size+4 > len(b) {
					break
				}
				l := int(binary.BigEndian.Uint32(b[size:]))
				if size+4+l > len(b) || l == 0 {
					break
				}
				cut := s.Intn(mini(l, 24)) + 1
				if s.Chance(1, 2) {
					b = append(b[:size+4+l-cut], b[size+4+l:]...)
					binary.BigEndian.PutUint32(b[size:], uint32(l-cut))
					what += " pattern cut"
					break
				}
				size += 4 + l
			}
		case 5:
			n := []uint32{0, 1 << 31, 0xFFFFFFFF, 0x7FFFFFFF, 1 << 16, uint32(len(b))}[s.Intn(6)]
			binary.BigEndian.PutUint32(b[i:], n)
			what += " length altered"
		}
	}
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	w.Write(b)
	w.Close()
	return out.Bytes(), "altered before compression:" + what
}

func init() { register(&Prop{ID: "C02", Run: runC02}) }
