package main

import (
	"embed"
	"strings"
)

//go:embed harness/*.txt
var harnessFS embed.FS

//go:embed confirm/*.txt
var confirmFS embed.FS

type typeInfo struct {
	T, E, Fresh, LT, Assume, Ord string
	MaxIns, MaxRec               int
	Float, Len, FC               bool
}

func (t typeInfo) fc() bool { return t.FC }

var sliceTypes = []typeInfo{
	{T: "I4", E: "int32", Fresh: "vI4()", LT: "a < b", Ord: "C01"},
	{T: "I8", E: "int64", Fresh: "vI8()", LT: "a < b", Ord: "C01"},
	{T: "U4", E: "uint32", Fresh: "vU4()", LT: "a < b", Ord: "C01"},
	{T: "U8", E: "uint64", Fresh: "vU8()", LT: "a < b", Ord: "C01"},
	{T: "F4", E: "float32", Fresh: "vF4()", LT: "a < b", Ord: "C03", Float: true, Assume: "vAssume(all[i] == all[i])"},
	{T: "F8", E: "float64", Fresh: "vF8()", LT: "a < b", Ord: "C03", Float: true, Assume: "vAssume(all[i] == all[i])"},
	{T: "S", E: "string", Fresh: "vStr()", LT: "a < b", Ord: "C01", FC: true},
	{T: "B", E: "[]byte", Fresh: "vBytes()", LT: "string(a) < string(b)", Ord: "C01", FC: true},
	{T: "LenS", E: "string", Fresh: "vLStr(1 << (20 + 20*(^uint(0)>>63)))", LT: "len(a) < len(b)", Ord: "C04", Len: true},
	{T: "LenB", E: "[]byte", Fresh: "vLBytes(int(^uint(0) >> 1))", LT: "len(a) < len(b)", Ord: "C04", Len: true},
}

func readTmpl(name string) string {
	b, err := harnessFS.ReadFile("harness/" + name + ".go.txt")
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (t typeInfo) expand(s string) string {
	pv, pvf, pva, ple, pge := t.E, t.Fresh, "", "a <= p", "p <= a"
	sort, iss := "SortSlice", "IsSortedSlice"
	switch {
	case t.T == "B":
		pv, pvf, ple, pge = "string", "vStr()", "string(a) <= p", "p <= string(a)"
	case t.Len:
		pv, pvf, pva, ple, pge = "int", "vInt(0, 1<<30)", "", "len(a) <= p", "p <= len(a)"
		sort, iss = "SortLen", "IsSortedLen"
	case t.Float:
		pva = "vAssume(x == x)"
	}
	nan, nonan, lens, out := "", "", "", "vOut(slc)"
	if t.Len {
		lens = "vLens()"
		out = "for i := range slc {\n\t\tvOutI(len(slc[i]))\n\t}"
	}
	if t.Float {
		nonan = "vAssume(x == x)"
		nan = "NaNoption = NaNignore"
	}
	ns, nl, nc := "4", "6", "8"
	if t.FC || t.Float {
		ns, nl, nc = "3", "5", "7"
	}
	rec, ins := "MaxLenRec", "MaxLenIns"
	if t.FC {
		rec, ins = "MaxLenRecFC", "MaxLenInsFC"
	}
	r := strings.NewReplacer("@OUT", out, "@LENS", lens, "@NANSET", nan, "@NONAN", nonan, "@SORT", sort, "@ISSORTED", iss, "@PVFRESH", pvf, "@PVASSUME", pva, "@PVLE", ple, "@PVGE", pge, "@PV", pv,
		"@NSHORT", ns, "@NLONG", nl, "@NCONC", nc, "@MREC", rec, "@MINS", ins,
		"@T", t.T, "@E", t.E, "@FRESH", t.Fresh, "@LT", t.LT, "@ASSUME", t.Assume, "@ORD", t.Ord)
	return r.Replace(s)
}
