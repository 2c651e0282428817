//go:build crefdrv

package main

import (
	"reflect"

	"github.com/bwesterb/go-ristretto/cref"
)

func init() {
	types["CF"] = reflect.TypeOf(cref.Fe25519{})
	types["CG"] = reflect.TypeOf(cref.GroupGe{})
	types["CS"] = reflect.TypeOf(cref.GroupScalar{})
	for n, f := range map[string]interface{}{
		"CF.Unpack": (*cref.Fe25519).Unpack, "CF.Pack": (*cref.Fe25519).Pack,
		"CG.Pack": (*cref.GroupGe).Pack, "CG.Unpack": (*cref.GroupGe).Unpack, "CG.Elligator": (*cref.GroupGe).Elligator,
		"CG.Neg": (*cref.GroupGe).Neg, "CG.Add": (*cref.GroupGe).Add, "CG.Double": (*cref.GroupGe).Double, "CG.ScalarMult": (*cref.GroupGe).ScalarMult,
		"CG.X": (*cref.GroupGe).X, "CG.Y": (*cref.GroupGe).Y, "CG.Z": (*cref.GroupGe).Z, "CG.T": (*cref.GroupGe).T,
		"CS.Unpack": (*cref.GroupScalar).Unpack, "CS.Pack": (*cref.GroupScalar).Pack,
	} {
		funcs[n] = reflect.ValueOf(f)
	}
}
