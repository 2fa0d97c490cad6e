package checks

import (
	_ "embed"
	"os"
	"path/filepath"
	"sync"

	"github.com/mazzegi/xpdf/font"

	"xpdfmc/dl"
	"xpdfmc/pdfread"
	"xpdfmc/veng"
)

//go:embed data/sans.ttf
var ttfSans []byte

//go:embed data/sansb.ttf
var ttfSansB []byte

//go:embed data/sansi.ttf
var ttfSansI []byte

//go:embed data/sansbi.ttf
var ttfSansBI []byte

func ttfFiles() map[string][]byte {
	return map[string][]byte{"sans.ttf": ttfSans, "sansb.ttf": ttfSansB, "sansi.ttf": ttfSansI, "sansbi.ttf": ttfSansBI}
}

func writeFonts(dir string) {
	for n, b := range ttfFiles() {
		_ = os.WriteFile(filepath.Join(dir, n), b, 0o666)
	}
}

func sansRegistry(dir string) *font.Registry {
	reg := font.NewRegistry()
	reg.Register(font.Descriptor{Name: "sans", Style: font.Regular, FilePath: filepath.Join(dir, "sans.ttf")})
	reg.Register(font.Descriptor{Name: "sans", Style: font.Bold, FilePath: filepath.Join(dir, "sansb.ttf")})
	reg.Register(font.Descriptor{Name: "sans", Style: font.Italic, FilePath: filepath.Join(dir, "sansi.ttf")})
	reg.Register(font.Descriptor{Name: "sans", Style: font.BoldItalic, FilePath: filepath.Join(dir, "sansbi.ttf")})
	return reg
}

var (
	ttfOnce sync.Once
	ttfMet  map[[2]bool]*pdfread.TTF
)

// RealMet has the metrics of Courier and of the fonts above, in millimetres.
type RealMet struct{ veng.Courier }

func (m RealMet) CharWidth(f dl.Font, c rune) float64 {
	if f.Family != "sans" {
		return m.Courier.CharWidth(f, c)
	}
	if c > 0xFFFF { // shown as the replacement character
		c = 0xFFFD
	}
	ttfOnce.Do(func() {
		ttfMet = map[[2]bool]*pdfread.TTF{}
		for k, b := range map[[2]bool][]byte{{false, false}: ttfSans, {true, false}: ttfSansB, {false, true}: ttfSansI, {true, true}: ttfSansBI} {
			t, err := pdfread.ReadTTF(b)
			if err != nil {
				panic(err)
			}
			ttfMet[k] = t
		}
	})
	return ttfMet[[2]bool{f.Bold, f.Italic}].Widths[c] * (f.Size / veng.K) / 1000
}
