package pdfread

import (
	"encoding/binary"
	"fmt"
	"math"
)

// TTF holds the widths of a TrueType font, in 1/1000 em, by character (basic plane).
type TTF struct{ Widths map[rune]float64 }

// ReadTTF reads cmap (format 4) and hmtx.
func ReadTTF(b []byte) (*TTF, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("too short")
	}
	u16 := func(o int) int { return int(binary.BigEndian.Uint16(b[o:])) }
	u32 := func(o int) int { return int(binary.BigEndian.Uint32(b[o:])) }
	tab := map[string]int{}
	for i := 0; i < u16(4); i++ {
		o := 12 + 16*i
		tab[string(b[o:o+4])] = u32(o + 8)
	}
	for _, t := range []string{"head", "hhea", "hmtx", "cmap"} {
		if tab[t] == 0 {
			return nil, fmt.Errorf("no table %s", t)
		}
	}
	upem := float64(u16(tab["head"] + 18))
	nh := u16(tab["hhea"] + 34)
	adv := func(g int) float64 {
		if g >= nh {
			g = nh - 1
		}
		return math.Round(float64(u16(tab["hmtx"]+4*g)) * 1000 / upem)
	}
	f := &TTF{Widths: map[rune]float64{}}
	cm := tab["cmap"]
	for i := 0; i < u16(cm+2); i++ {
		st := cm + u32(cm+4+8*i+4)
		if u16(st) != 4 {
			continue
		}
		sc := u16(st+6) / 2
		for s := 0; s < sc; s++ {
			end, start := u16(st+14+2*s), u16(st+16+2*sc+2*s)
			delta, ro := u16(st+16+4*sc+2*s), u16(st+16+6*sc+2*s)
			for c := start; c <= end && c < 0xFFFF; c++ {
				g := 0
				if ro == 0 {
					g = (c + delta) & 0xFFFF
				} else {
					g = u16(st + 16 + 6*sc + 2*s + ro + 2*(c-start))
					if g != 0 {
						g = (g + delta) & 0xFFFF
					}
				}
				if g != 0 {
					f.Widths[rune(c)] = adv(g)
				}
			}
		}
		break
	}
	return f, nil
}
