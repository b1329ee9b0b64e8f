package zzverif

// Place chooses a pixel: any in small images; in larger ones corners, places at and near the borders, and inside.
func Place(w, h int) int {
	if w*h <= 36 {
		return Choose("place", w*h)
	}
	at := [][2]int{{0, 0}, {w - 1, 0}, {0, h - 1}, {w - 1, h - 1}, {w / 2, h / 2}, {1, h/2 + 1}, {w - 2, h / 2}, {w/2 + 1, 1}, {w / 3, h - 2}}
	p := at[Choose("place", len(at))]
	if p[0] < 0 {
		p[0] = 0
	}
	if p[1] < 0 {
		p[1] = 0
	}
	if p[0] >= w {
		p[0] = w - 1
	}
	if p[1] >= h {
		p[1] = h - 1
	}
	return p[1]*w + p[0]
}
