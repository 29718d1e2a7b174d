package deflect

// BOUNDS: validation: all 64-bit floating-point values including NaN and infinities, all subsets of
// present parameters plus an unknown one (bit-precise arithmetic); formulas: all positive dimensions
// in exact real arithmetic. Infinite values may be accepted or refused.

const vxHuge = 1e300

// VvhC17_Rectangle_FP: validation of rectangles.
func VvhC17_Rectangle_FP() {
	b, h, roll := vfF("b"), vfF("h"), vfF("roll")
	cs, err := NewRectangularCrossSection(b, h, roll)
	if err == nil {
		vfCheck("accepted width is positive", b > 0)
		vfCheck("accepted height is positive", h > 0)
		vfCheck("accepted roll angle is not negative", roll >= 0)
		vfCheck("accepted section is available", cs != nil)
		vfCheck("roll angle is the given one", cs.RollAngle() == roll)
		vfCover("accepted")
	} else {
		vfCheck("valid rectangle is accepted", !(b > 0 && h > 0 && roll >= 0 && b < vxHuge && h < vxHuge && roll < vxHuge))
		vfCover("refused")
	}
}

// VvhC17_Constants_FP: validation of sections given by constants.
func VvhC17_Constants_FP() {
	param := map[string]float64{}
	complete := true
	for _, key := range []string{"A", "Iyy", "Izz"} {
		if vfInt("has"+key, 0, 1) == 1 {
			param[key] = vfF(key)
		} else {
			complete = false
		}
	}
	for _, key := range []string{"Ixx", "roll"} {
		if vfInt("has"+key, 0, 1) == 1 {
			param[key] = vfF(key)
		}
	}
	cs, err := NewConstantsCrossSections(param)
	valid := complete && param["A"] > 0 && param["Iyy"] > 0 && param["Izz"] > 0 && param["Ixx"] >= 0 && param["roll"] >= 0
	if err == nil {
		vfCheck("nothing is missing in an accepted section", complete)
		vfCheck("accepted area and second moments are positive", param["A"] > 0 && param["Iyy"] > 0 && param["Izz"] > 0)
		vfCheck("accepted torsion constant is not negative", param["Ixx"] >= 0)
		vfCheck("accepted roll angle is not negative", param["roll"] >= 0)
		vfCheck("values are the given ones", cs.Area() == param["A"] && cs.Iyy() == param["Iyy"] && cs.Izz() == param["Izz"] &&
			cs.Ixx() == param["Ixx"] && cs.RollAngle() == param["roll"])
		vfCover("accepted")
	} else {
		huge := false
		for _, v := range param {
			huge = huge || v >= vxHuge
		}
		vfCheck("valid section is accepted", !valid || huge)
		vfCover("refused")
	}
}

// VvhC17_Loads_FP: validation of load positions.
func VvhC17_Loads_FP() {
	kind := []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix}[vfInt("kind", 0, 5)]
	pos, value := vfF("pos"), vfF("value")
	ld, err := NewElementConcentratedLoad(kind, pos, value)
	if err == nil {
		vfCheck("accepted position is not negative", pos >= 0)
		vfCheck("accepted load is available", ld != nil)
		vfCover("accepted")
	} else {
		vfCheck("valid load is accepted", !(pos >= 0 && pos < vxHuge && value > -vxHuge && value < vxHuge))
		vfCover("refused")
	}
}

// VvhC17_Formulas: area and second moments of rectangles.
func VvhC17_Formulas() {
	b, h, roll := vfPos("b"), vfPos("h"), vfNN("roll")
	cs, err := NewRectangularCrossSection(b, h, roll)
	vfCheck("valid rectangle is accepted", err == nil)
	sw, err := NewRectangularCrossSection(h, b, roll)
	vfCheck("valid rectangle is accepted", err == nil)
	vfEq("area", cs.Area(), b*h)
	vfEq("second moment about y", cs.Iyy(), b*h*h*h/12)
	vfEq("second moment about z", cs.Izz(), h*b*b*b/12)
	vfEq("roll angle", cs.RollAngle(), roll)
	vfEq("area of the swapped rectangle", sw.Area(), cs.Area())
	vfEq("second moment about y of the swapped rectangle", sw.Iyy(), cs.Izz())
	vfEq("second moment about z of the swapped rectangle", sw.Izz(), cs.Iyy())
	vfEq("torsion constant of the swapped rectangle", sw.Ixx(), cs.Ixx())
	// Roark: beta a b^3 with a the longer side
	l, s := b, h
	if b < h {
		l, s = h, b
	}
	q := s / l
	vfEq("torsion constant", cs.Ixx(), l*s*s*s*(1.0/3-0.21*q*(1-q*q*q*q/12)))
	vfCheck("area is positive", cs.Area() > 0)
	vfCheck("second moment about y is positive", cs.Iyy() > 0)
	vfCheck("second moment about z is positive", cs.Izz() > 0)
	vfCheck("torsion constant is positive", cs.Ixx() > 0)
	vfCover("formulas")
}

// VvhC17_Values: constants are handed out under their own names.
func VvhC17_Values() {
	param := map[string]float64{"A": vfPos("A"), "Iyy": vfPos("Iyy"), "Izz": vfPos("Izz")}
	ixx, roll := 0.0, 0.0
	if vfInt("hasIxx", 0, 1) == 1 {
		ixx = vfNN("Ixx")
		param["Ixx"] = ixx
	}
	if vfInt("hasRoll", 0, 1) == 1 {
		roll = vfNN("roll")
		param["roll"] = roll
	}
	cs, err := NewConstantsCrossSections(param)
	vfCheck("valid section is accepted", err == nil)
	if err != nil {
		return
	}
	vfEq("area", cs.Area(), param["A"])
	vfEq("second moment about y", cs.Iyy(), param["Iyy"])
	vfEq("second moment about z", cs.Izz(), param["Izz"])
	vfEq("torsion constant", cs.Ixx(), ixx)
	vfEq("roll angle", cs.RollAngle(), roll)
	vfCover("values")
}

// VvhC17_Length: elements need two different points, whatever their coordinates.
func VvhC17_Length() {
	kind := vfInt("kind", 0, 2)
	m := vxMaterial("")
	n0 := &Node{ID: "a", X: vfF("x"), Y: vfF("y"), Z: vfF("z")}
	n1 := &Node{ID: "b", X: n0.X, Y: n0.Y, Z: n0.Z}
	_, err := vxNew(kind, "e", n0, n1, m, nil)
	vfCheck("element of no length is refused", err != nil)
	n1.X += vfPos("l")
	_, err = vxNew(kind, "e", n0, n1, m, nil)
	vfCheck("element between different points is accepted", err == nil)
	_, err = vxNew(kind, "", n0, n1, m, nil)
	vfCheck("element without name is refused", err != nil)
	vfCover("length")
}
