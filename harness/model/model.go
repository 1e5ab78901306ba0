// Package model stands in for library functions that are out of reach of symbolic execution: compression and
// floating-point filters. The executor calls these functions instead; compiled code calls the real ones.
package model

import (
	"errors"
	"image"
	"image/color"
	"image/png"
	"io"

	"github.com/nfnt/resize"
)

const magic = "\x89PNG\r\n\x1a\nmodel"

// PNGEncode stands for png.Encode: it writes the size and every pixel. Exact for colours of 8 bits or less.
func PNGEncode(w io.Writer, m image.Image) error {
	r := m.Bounds()
	dx, dy := r.Dx(), r.Dy()
	if dx <= 0 || dy <= 0 {
		return errors.New("png: invalid format: invalid image size")
	}
	if _, err := io.WriteString(w, magic); err != nil {
		return err
	}
	if _, err := w.Write([]byte{byte(dx), byte(dx >> 8), byte(dy), byte(dy >> 8)}); err != nil {
		return err
	}
	n, fast := m.(*image.NRGBA)
	for y := r.Min.Y; y < r.Max.Y; y++ {
		var row []byte
		if fast {
			o := n.PixOffset(r.Min.X, y)
			row = n.Pix[o : o+4*dx]
		} else {
			row = make([]byte, 0, 4*dx)
			for x := r.Min.X; x < r.Max.X; x++ {
				c := color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
				row = append(row, c.R, c.G, c.B, c.A)
			}
		}
		if _, err := w.Write(row); err != nil {
			return err
		}
	}
	return nil
}

// PNGEncoder stands for (*png.Encoder).Encode.
func PNGEncoder(e *png.Encoder, w io.Writer, m image.Image) error { return PNGEncode(w, m) }

// PNGDecode stands for png.Decode on what PNGEncode writes.
func PNGDecode(r io.Reader) (image.Image, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) < len(magic)+4 || string(b[:len(magic)]) != magic {
		return nil, errors.New("png: invalid format: not a PNG file")
	}
	b = b[len(magic):]
	m := image.NewNRGBA(image.Rect(0, 0, int(b[0])|int(b[1])<<8, int(b[2])|int(b[3])<<8))
	if len(b)-4 != len(m.Pix) {
		return nil, errors.New("png: invalid format: not enough pixel data")
	}
	copy(m.Pix, b[4:])
	return m, nil
}

// Resize stands for resize.Resize: same dimensions and kind of image, and pixels picked from the source.
func Resize(width, height uint, img image.Image, interp resize.InterpolationFunction) image.Image {
	r := img.Bounds()
	dx, dy := r.Dx(), r.Dy()
	scaleX, scaleY := factors(width, height, float64(dx), float64(dy))
	if width == 0 {
		width = uint(0.7 + float64(dx)/scaleX)
	}
	if height == 0 {
		height = uint(0.7 + float64(dy)/scaleY)
	}
	if int(width) == dx && int(height) == dy || dx <= 0 || dy <= 0 {
		return img
	}
	m := image.NewRGBA(image.Rect(0, 0, int(width), int(height)))
	w, h := int(width), int(height)
	rows := make([][]byte, dy)
	for y := 0; y < h; y++ {
		sy := y * dy / h
		if rows[sy] == nil {
			cols := make([][]byte, dx)
			row := make([]byte, 0, 4*w)
			for x := 0; x < w; x++ {
				sx := x * dx / w
				if cols[sx] == nil {
					c := color.RGBAModel.Convert(img.At(r.Min.X+sx, r.Min.Y+sy)).(color.RGBA)
					cols[sx] = []byte{c.R, c.G, c.B, c.A}
				}
				row = append(row, cols[sx]...)
			}
			rows[sy] = row
		}
		copy(m.Pix[y*m.Stride:], rows[sy])
	}
	return m
}

func factors(width, height uint, dx, dy float64) (float64, float64) {
	switch {
	case width == 0 && height == 0:
		return 1, 1
	case width == 0:
		return dy / float64(height), dy / float64(height)
	case height == 0:
		return dx / float64(width), dx / float64(width)
	}
	return dx / float64(width), dy / float64(height)
}
