package h

func init() {
	All["C02_read"] = C02_read
	All["C03_read"] = C03_read
	All["C04_read"] = C04_read
}

func C02_read() { readGolden("para", "section") }
func C03_read() { readGolden("table") }
func C04_read() { readGolden("inline", "anchor", "picture", "shape", "canvas", "group", "groupshape") }
