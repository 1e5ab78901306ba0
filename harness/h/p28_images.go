package h

import (
	"bytes"
	"image"
	"image/color"
	"image/png"

	"github.com/nfnt/resize"
	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// plane is an image of one colour, of any bounds, and any colour model.
type plane struct {
	r     image.Rectangle
	c     color.Color
	model color.Model
}

func (p *plane) Bounds() image.Rectangle { return p.r }
func (p *plane) At(x, y int) color.Color {
	if !(image.Point{x, y}.In(p.r)) {
		return color.NRGBA{}
	}
	return p.c
}
func (p *plane) ColorModel() color.Model { return p.model }

// veiled hides the type of an image.
type veiled struct{ image.Image }

// pixels lists the colours of an image.
func pixels(m image.Image) [][]color.NRGBA {
	r := m.Bounds()
	var out [][]color.NRGBA
	for y := r.Min.Y; y < r.Max.Y; y++ {
		var row []color.NRGBA
		for x := r.Min.X; x < r.Max.X; x++ {
			row = append(row, color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA))
		}
		out = append(out, row)
	}
	return out
}

func sameColor(a, b color.NRGBA) bool {
	return sym.And(sym.And(a.R == b.R, a.G == b.G), sym.And(a.B == b.B, a.A == b.A))
}

// placed tells whether got is a square that shows want at (dx, dy) and is transparent elsewhere.
func placed(got, want [][]color.NRGBA, dx, dy int) bool {
	ok := true
	for y := range got {
		for x, c := range got[y] {
			if y >= dy && y-dy < len(want) && x >= dx && x-dx < len(want[0]) {
				ok = sym.And(ok, sameColor(c, want[y-dy][x-dx]))
			} else {
				ok = sym.And(ok, c.A == 0)
			}
		}
	}
	return ok
}

// shows asserts that got is the square image of want: in the middle, or in the corner.
func shows(got, want [][]color.NRGBA, center bool) {
	w, h := len(want[0]), len(want)
	n := max(w, h)
	sym.Assert(len(got) == n && len(got[0]) == n, "a square of the longest side")
	if !center {
		sym.Assert(placed(got, want, 0, 0), "the pixels of the image, transparent elsewhere")
		return
	}
	// an odd margin may be shared either way
	sym.Assert(sym.Or(placed(got, want, (n-w)/2, (n-h)/2), placed(got, want, (n-w+1)/2, (n-h+1)/2)), "the pixels of the image in the middle, transparent elsewhere")
}

// colour is a pixel: arbitrary, or not so much.
func colour(tag string, i int) color.NRGBA {
	if i < 3 {
		t := num(tag, i)
		return color.NRGBA{sym.U8(t + ".r"), sym.U8(t + ".g"), sym.U8(t + ".b"), sym.U8(t + ".a")}
	}
	return color.NRGBA{byte(i), byte(i * 7), byte(i * 31), byte(255 - i%2*i)}
}

// anyImage is an image of some type whose pixels are arbitrary.
func anyImage(tag string, w, h int) image.Image {
	at := image.Pt([]int{0, 5, -3}[sym.Choice(tag+".x", 3)], []int{0, -7}[sym.Choice(tag+".y", 2)])
	r := image.Rectangle{at, at.Add(image.Pt(w, h))}
	each := func(f func(x, y, i int)) {
		i := 0
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				f(x, y, i)
				i++
			}
		}
	}
	switch kind := sym.Choice(tag+".type", 7); kind {
	case 0, 1, 2:
		m := image.NewNRGBA(r)
		if kind == 1 {
			// part of a larger image
			m = image.NewNRGBA(r.Inset(-1)).SubImage(r).(*image.NRGBA)
		}
		each(func(x, y, i int) { m.SetNRGBA(x, y, colour(tag, i)) })
		if kind == 2 {
			return veiled{m}
		}
		return m
	case 3:
		m := image.NewRGBA(r)
		each(func(x, y, i int) {
			c := colour(tag, i)
			sym.Assume(sym.And(sym.And(c.R <= c.A, c.G <= c.A), c.B <= c.A))
			m.SetRGBA(x, y, color.RGBA{c.R, c.G, c.B, c.A})
		})
		return m
	case 4:
		m := image.NewGray(r)
		each(func(x, y, i int) { m.SetGray(x, y, color.Gray{colour(tag, i).R}) })
		return m
	case 5:
		m := image.NewPaletted(r, color.Palette{colour(tag, 0), colour(tag, 1), color.Gray{7}})
		each(func(x, y, i int) { m.SetColorIndex(x, y, uint8(i%3)) })
		return m
	}
	m := image.NewNRGBA(r)
	each(func(x, y, i int) {
		c := colour(tag, i)
		c.A = 255
		m.SetNRGBA(x, y, c)
	})
	return m
}

// iconImages reads the images of an icon file, which must be what the directory says.
func iconImages(imgs []icoImg) []image.Image {
	var out []image.Image
	for _, i := range imgs {
		m, err := png.Decode(bytes.NewReader(i.data))
		sym.Assert(err == nil, "a PNG image")
		sym.Assert(m.Bounds().Dx() == i.w && m.Bounds().Dy() == i.h, "the dimensions of the image are listed")
		sym.Assert(i.bits == 32 && i.planes == 1 && i.cc == 0, "32 bits images")
		out = append(out, m)
	}
	return out
}

func iconPixels(imgs []icoImg) [][][]color.NRGBA {
	var out [][][]color.NRGBA
	for _, m := range iconImages(imgs) {
		out = append(out, pixels(m))
	}
	return out
}

// dib reads the bitmap of a cursor strictly: pixels, and a mask unless they have 32 bits.
func dib(i icoImg) [][]color.NRGBA {
	at := dibAt(i)
	out := make([][]color.NRGBA, i.h)
	for y := range out {
		for x := 0; x < i.w; x++ {
			out[y] = append(out[y], at(x, y))
		}
	}
	return out
}

func dibAt(i icoImg) func(x, y int) color.NRGBA {
	b := i.data
	sym.Assert(len(b) >= 40 && u32(b, 0) == 40, "a bitmap header")
	w, h2, planes, bits := u32(b, 4), u32(b, 8), u16(b, 12), u16(b, 14)
	sym.Assert(w == i.w && h2 == 2*i.h, "the dimensions of the image are listed, the mask doubling the height")
	sym.Assert(planes == 1 && u32(b, 16) == 0, "not compressed")
	sym.Assert(bits == 32 || bits == 24, "true colours")
	sym.Assert(i.planes == planes && i.bits == bits, "the depth of the image is listed")
	stride := (w*bits/8 + 3) &^ 3
	mask := (w/8 + 3) &^ 3
	sym.Assert(u32(b, 20) == 0 || u32(b, 20) == stride*i.h, "the size of the pixels")
	sym.Assert(len(b) == 40+stride*i.h && bits == 32 || len(b) == 40+(stride+mask)*i.h, "all pixels, and a mask")
	return func(x, y int) color.NRGBA {
		o := 40 + stride*(i.h-1-y) + x*bits/8
		c := color.NRGBA{b[o+2], b[o+1], b[o], 255}
		if bits == 32 {
			c.A = b[o+3]
		}
		return c
	}
}

// side is the length of one side of an image.
func side(tag string) int {
	if sym.Thorough() {
		return 1 + sym.Choice(tag, 5)
	}
	return 1 + sym.Choice(tag, 3)
}

// P28_Icon: an icon made of one image of any type.
func P28_Icon() {
	img := anyImage("img", side("width"), side("height"))
	want := pixels(img)
	ico, err := winres.NewIconFromImages([]image.Image{img})
	sym.Assert(err == nil && ico != nil, "accepted")
	got := save(ico)
	sym.Assert(len(got) == 1, "one image")
	shows(iconPixels(got)[0], want, true)
	sym.Cover("shown")
}

// P28_Cursor: a cursor made of one image of any type.
func P28_Cursor() {
	img := anyImage("img", side("width"), side("height"))
	want := pixels(img)
	x, y := sym.U16("x"), sym.U16("y")
	cur, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img, HotSpot: winres.HotSpot{X: x, Y: y}}})
	sym.Assert(err == nil && cur != nil, "accepted")
	rs := &winres.ResourceSet{}
	sym.Assert(rs.SetCursor(winres.ID(1), cur) == nil, "stored")
	got := groupImages(rs, 2, winres.ID(1), 0)
	sym.Assert(len(got) == 1, "one image")
	sym.Assert(got[0].hotX == int(x) && got[0].hotY == int(y), "the hot spot")
	shows(dib(got[0]), want, false)
	file := saveCUR(cur)
	sym.Assert(len(file) == 1 && sym.EqBytes(file[0].data, got[0].data), "the same image in a file")
	sym.Assert(file[0].w == got[0].w && file[0].h == got[0].h, "the same dimensions in a file")
	sym.Assert(file[0].hotX == int(x) && file[0].hotY == int(y), "the hot spot")
	sym.Cover("shown")
}

// both makes an icon and a cursor of the same images: either both are made or none.
func both(imgs []image.Image) (*winres.Icon, *winres.Cursor) {
	ico, err := winres.NewIconFromImages(imgs)
	sym.Assert((err == nil) == (ico != nil), "an icon or an error")
	var ci []winres.CursorImage
	for i, m := range imgs {
		ci = append(ci, winres.CursorImage{Image: m, HotSpot: winres.HotSpot{X: uint16(i), Y: 9}})
	}
	cur, err2 := winres.NewCursorFromImages(ci)
	sym.Assert((err2 == nil) == (cur != nil), "a cursor or an error")
	sym.Assert((err == nil) == (err2 == nil), "the same limits for icons and cursors")
	return ico, cur
}

// P28_Limits: images of any dimensions, alone or after a good one.
func P28_Limits() {
	m := &plane{c: color.NRGBA{1, 2, 3, 4}, model: color.NRGBAModel}
	x, y := int(int32(sym.U32("x"))), int(int32(sym.U32("y")))
	ok := sym.Choice("small", 2) == 1
	w, h := 0, 0
	if ok {
		w, h = 1+sym.Choice("w", 2), 1+sym.Choice("h", 2)
	} else {
		w, h = int(int32(sym.U32("w"))), int(int32(sym.U32("h")))
		sym.Assume(!sym.And(sym.And(w >= 1, w <= 256), sym.And(h >= 1, h <= 256)))
	}
	m.r = image.Rectangle{image.Pt(x, y), image.Pt(x+w, y+h)}
	var imgs []image.Image
	if sym.Choice("first", 2) == 1 {
		imgs = append(imgs, image.NewNRGBA(image.Rect(0, 0, 1, 1)))
	}
	imgs = append(imgs, m)
	ico, cur := both(imgs)
	sym.Assert(sym.Iff(ico != nil && cur != nil, ok), "exactly images of 1 to 256 pixels per side are accepted")
	if ico != nil {
		sym.Assert(len(save(ico)) == len(imgs), "as many images")
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

func alpha(m image.Image, x, y int) byte {
	return color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA).A
}

// P28_Sizes: every size up to 256, thin images, and some square ones.
func P28_Sizes() {
	n := 0
	if sym.Thorough() {
		n = 1 + sym.Choice("n", 256)
	} else {
		some := []int{1, 2, 3, 4, 7, 8, 15, 17, 31, 33, 127, 128, 129, 255, 256}
		n = some[sym.Choice("n", len(some))]
	}
	m := &plane{c: color.NRGBA{1, 2, 3, sym.U8("a")}, model: color.NRGBAModel}
	switch sym.Choice("shape", 3) {
	case 0:
		m.r = image.Rect(-1, 0, n-1, 1)
	case 1:
		m.r = image.Rect(0, 7, 1, n+7)
	case 2:
		if n > 33 && n < 256 {
			n = 5
		}
		m.r = image.Rect(0, 0, n, n)
	}
	w, h := m.r.Dx(), m.r.Dy()
	ico, cur := both([]image.Image{m})
	sym.Assert(ico != nil && cur != nil, "images up to 256 pixels are accepted")
	got := save(ico)
	sym.Assert(len(got) == 1 && got[0].w == n && got[0].h == n, "the dimensions of the image are listed")
	rs := &winres.ResourceSet{}
	sym.Assert(rs.SetCursor(winres.ID(1), cur) == nil, "stored")
	c := groupImages(rs, 2, winres.ID(1), 0)
	sym.Assert(len(c) == 1 && c[0].w == n && c[0].h == n, "the dimensions of the image are listed")
	p, q := iconImages(got)[0], dibAt(c[0])
	a := m.c.(color.NRGBA).A
	for _, t := range []struct{ x, y int }{{0, 0}, {w - 1, h - 1}, {w / 2, h / 2}, {n - 1, n - 1}} {
		px, py := t.x-(n-w)/2, t.y-(n-h)/2
		if px >= 0 && px < w && py >= 0 && py < h {
			sym.Assert(alpha(p, t.x, t.y) == a, "the image in the middle of an icon")
		} else if px < -1 || px > w || py < -1 || py > h {
			sym.Assert(alpha(p, t.x, t.y) == 0, "transparent around")
		}
		if t.x < w && t.y < h {
			sym.Assert(q(t.x, t.y).A == a, "the image in the corner of a cursor")
		} else {
			sym.Assert(q(t.x, t.y).A == 0, "transparent around")
		}
	}
	sym.Cover("sizes")
}

// P28_List: several images, in the order Windows expects.
func P28_List() {
	n := 1 + sym.Choice("n", 3)
	var imgs []image.Image
	var want [][][]color.NRGBA
	for i := 0; i < n; i++ {
		w := 1 + sym.Choice(num("w", i), 3)
		m := image.NewNRGBA(image.Rect(0, 0, w, 1+i%2))
		m.SetNRGBA(0, 0, color.NRGBA{byte(i + 1), sym.U8(num("green", i)), 0, 200})
		imgs = append(imgs, m)
		want = append(want, pixels(m))
	}
	ico, cur := both(imgs)
	sym.Assert(ico != nil && cur != nil, "accepted")
	check := func(got []icoImg, pix [][][]color.NRGBA, center bool) {
		sym.Assert(len(got) == n, "as many images")
		used := make([]bool, n)
		for i := range pix {
			sym.Assert(i == 0 || got[i-1].w >= got[i].w, "larger images first")
			found := false
			for j := range want {
				w, h := len(want[j][0]), len(want[j])
				if used[j] || max(w, h) != len(pix[i]) {
					continue
				}
				dx, dy := 0, 0
				if center {
					dx, dy = (len(pix[i])-w)/2, (len(pix[i])-h)/2
				}
				if placed(pix[i], want[j], dx, dy) || placed(pix[i], want[j], (2*dx+1)/2, (2*dy+1)/2) {
					used[j], found = true, true
					if !center {
						sym.Assert(got[i].hotX == j && got[i].hotY == 9, "the hot spot of the image")
					}
					break
				}
			}
			sym.Assert(found, "every image")
		}
	}
	got := save(ico)
	check(got, iconPixels(got), true)
	rs := &winres.ResourceSet{}
	sym.Assert(rs.SetCursor(winres.ID(1), cur) == nil, "stored")
	got = groupImages(rs, 2, winres.ID(1), 0)
	var pix [][][]color.NRGBA
	for _, i := range got {
		pix = append(pix, dib(i))
	}
	check(got, pix, false)
	sym.Cover("listed")
}

// P28_Resized: an image resized to several sizes.
func P28_Resized() {
	shapes := []image.Point{{1, 1}, {2, 2}, {1, 2}, {3, 2}, {4, 3}, {5, 16}, {40, 13}, {16, 16}, {300, 290}, {1000, 3}}
	r := image.Rectangle{Max: shapes[sym.Choice("shape", len(shapes))]}.Add(image.Pt(0, sym.Choice("at", 2)*3))
	m := image.NewNRGBA(r)
	for i := 2; i < 5; i++ {
		c := colour("pixel", i)
		m.SetNRGBA(r.Min.X+i*(r.Dx()-1)/2, r.Min.Y+i*(r.Dy()-1)/2, c)
	}
	lists := [][]int{{}, {16}, {1, 2, 3}, {5, 5}, {3, 20, 7}, {256}, nil}
	n := 5
	if sym.Thorough() || r.Dx() == 3 {
		n = 7
	}
	sizes := lists[sym.Choice("sizes", n)]
	ico, err := winres.NewIconFromResizedImage(m, sizes)
	if sizes == nil {
		sizes = []int{256, 64, 48, 32, 16}
	}
	var want []image.Image
	gone := false
	for _, s := range sizes {
		// the third-party package decides of the length of the shorter side
		w, h := uint(s), uint(s)
		if r.Dx() < r.Dy() {
			w = 0
		} else if r.Dx() > r.Dy() {
			h = 0
		}
		x := resize.Resize(w, h, m, resize.Lanczos2)
		gone = gone || x.Bounds().Empty()
		want = append(want, x)
	}
	if gone {
		sym.Assert(err != nil && ico == nil, "an image so thin that nothing remains is refused")
		sym.Cover("thin")
		return
	}
	sym.Assert(err == nil && ico != nil, "accepted")
	got := save(ico)
	sym.Assert(len(got) == len(sizes), "an image for each size")
	pix := iconPixels(got)
	used := make([]bool, len(sizes))
	for i := range got {
		j := 0
		for j < len(sizes) && (used[j] || sizes[j] != got[i].w) {
			j++
		}
		sym.Assert(j < len(sizes) && got[i].h == got[i].w, "exactly the sizes requested")
		used[j] = true
		if got[i].w <= 48 || i == 0 && sym.Thorough() {
			shows(pix[i], pixels(want[j]), true)
		}
	}
	sym.Cover("resized")
}

// P28_ResizedLimits: any size.
func P28_ResizedLimits() {
	m := image.NewNRGBA(image.Rect(0, 0, 2, 2))
	m.SetNRGBA(0, 0, colour("pixel", 0))
	n := sym.Choice("before", 3)
	ok := sym.Choice("valid", 2) == 1
	s := 0
	if ok {
		s = []int{1, 2, 3, 4, 5, 15, 127, 254, 255, 256}[sym.Choice("size", 10)]
	} else {
		s = int(sym.U64("size"))
		sym.Assume(sym.Or(s < 1, s > 256))
	}
	sizes := append([]int{16, 8}[:n:n], s)
	ico, err := winres.NewIconFromResizedImage(m, sizes)
	sym.Assert(sym.Iff(err == nil, ok), "exactly sizes of 1 to 256 are accepted")
	sym.Assert((err == nil) == (ico != nil), "an icon or an error")
	if ico == nil {
		sym.Cover("refused")
		return
	}
	found := false
	got := save(ico)
	sym.Assert(len(got) == len(sizes), "an image for each size")
	for _, g := range got {
		found = sym.Or(found, sym.And(g.w == s, g.h == s))
	}
	sym.Assert(found, "an image of the right size")
	sym.Cover("accepted")
}

// P28_Many: at most 30 sizes.
func P28_Many() {
	n := sym.Choice("n", 40)
	m := image.NewNRGBA(image.Rect(0, 0, 2, 1))
	m.SetNRGBA(0, 0, colour("pixel", 0))
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = 1 + i%2
	}
	ico, err := winres.NewIconFromResizedImage(m, sizes)
	sym.Assert((err == nil) == (n <= 30), "up to 30 sizes")
	if err == nil {
		sym.Assert(len(save(ico)) == n, "an image for each size")
		sym.Cover("accepted")
	} else {
		sym.Assert(ico == nil, "an icon or an error")
		sym.Cover("refused")
	}
}

// P28_Largest: an image of 256 or 255 pixels comes before a smaller one.
func P28_Largest() {
	n := []int{256, 255}[sym.Choice("large", 2)]
	imgs := []image.Image{
		image.NewNRGBA(image.Rect(0, 0, []int{1, 32}[sym.Choice("small", 2)], 1)),
		&plane{c: color.NRGBA{1, 2, 3, sym.U8("a")}, model: color.NRGBAModel, r: image.Rect(0, 0, n, 1)},
	}
	if sym.Choice("swap", 2) == 1 {
		imgs[0], imgs[1] = imgs[1], imgs[0]
	}
	ico, cur := both(imgs)
	sym.Assert(ico != nil && cur != nil, "accepted")
	got := save(ico)
	sym.Assert(len(got) == 2 && got[0].w == n && got[1].w < n, "larger images first")
	rs := &winres.ResourceSet{}
	sym.Assert(rs.SetCursor(winres.ID(1), cur) == nil, "stored")
	got = groupImages(rs, 2, winres.ID(1), 0)
	sym.Assert(len(got) == 2 && got[0].w == n && got[1].w < n, "larger images first")
	sym.Cover("ordered")
}
