// Code generated by gen.py. DO NOT EDIT.

package kit

import (
	"context"
	"reflect"
)

type Int_NNNN int
type Int_NNNV int

func (r Int_NNNV) MarshalText() ([]byte, error) { return callT("Int_NNNV", r) }

type Int_NNNP int

func (r *Int_NNNP) MarshalText() ([]byte, error) { return callT("Int_NNNP", r) }

type Int_NNVN int

func (r Int_NNVN) MarshalJSON() ([]byte, error) { return callJ("Int_NNVN", r) }

type Int_NNVV int

func (r Int_NNVV) MarshalJSON() ([]byte, error) { return callJ("Int_NNVV", r) }
func (r Int_NNVV) MarshalText() ([]byte, error) { return callT("Int_NNVV", r) }

type Int_NNVP int

func (r Int_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Int_NNVP", r) }
func (r *Int_NNVP) MarshalText() ([]byte, error) { return callT("Int_NNVP", r) }

type Int_NNPN int

func (r *Int_NNPN) MarshalJSON() ([]byte, error) { return callJ("Int_NNPN", r) }

type Int_NNPV int

func (r *Int_NNPV) MarshalJSON() ([]byte, error) { return callJ("Int_NNPV", r) }
func (r Int_NNPV) MarshalText() ([]byte, error)  { return callT("Int_NNPV", r) }

type Int_NNPP int

func (r *Int_NNPP) MarshalJSON() ([]byte, error) { return callJ("Int_NNPP", r) }
func (r *Int_NNPP) MarshalText() ([]byte, error) { return callT("Int_NNPP", r) }

type Int_NVNN int

func (r Int_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVNN", r, b) }

type Int_NVNV int

func (r Int_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVNV", r, b) }
func (r Int_NVNV) MarshalText() ([]byte, error)        { return callT("Int_NVNV", r) }

type Int_NVNP int

func (r Int_NVNP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVNP", r, b) }
func (r *Int_NVNP) MarshalText() ([]byte, error)       { return callT("Int_NVNP", r) }

type Int_NVVN int

func (r Int_NVVN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVVN", r, b) }
func (r Int_NVVN) MarshalJSON() ([]byte, error)        { return callJ("Int_NVVN", r) }

type Int_NVVV int

func (r Int_NVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVVV", r, b) }
func (r Int_NVVV) MarshalJSON() ([]byte, error)        { return callJ("Int_NVVV", r) }
func (r Int_NVVV) MarshalText() ([]byte, error)        { return callT("Int_NVVV", r) }

type Int_NVVP int

func (r Int_NVVP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVVP", r, b) }
func (r Int_NVVP) MarshalJSON() ([]byte, error)        { return callJ("Int_NVVP", r) }
func (r *Int_NVVP) MarshalText() ([]byte, error)       { return callT("Int_NVVP", r) }

type Int_NVPN int

func (r Int_NVPN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVPN", r, b) }
func (r *Int_NVPN) MarshalJSON() ([]byte, error)       { return callJ("Int_NVPN", r) }

type Int_NVPV int

func (r Int_NVPV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVPV", r, b) }
func (r *Int_NVPV) MarshalJSON() ([]byte, error)       { return callJ("Int_NVPV", r) }
func (r Int_NVPV) MarshalText() ([]byte, error)        { return callT("Int_NVPV", r) }

type Int_NVPP int

func (r Int_NVPP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NVPP", r, b) }
func (r *Int_NVPP) MarshalJSON() ([]byte, error)       { return callJ("Int_NVPP", r) }
func (r *Int_NVPP) MarshalText() ([]byte, error)       { return callT("Int_NVPP", r) }

type Int_NPNN int

func (r *Int_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPNN", r, b) }

type Int_NPNV int

func (r *Int_NPNV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPNV", r, b) }
func (r Int_NPNV) MarshalText() ([]byte, error)         { return callT("Int_NPNV", r) }

type Int_NPNP int

func (r *Int_NPNP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPNP", r, b) }
func (r *Int_NPNP) MarshalText() ([]byte, error)        { return callT("Int_NPNP", r) }

type Int_NPVN int

func (r *Int_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPVN", r, b) }
func (r Int_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Int_NPVN", r) }

type Int_NPVV int

func (r *Int_NPVV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPVV", r, b) }
func (r Int_NPVV) MarshalJSON() ([]byte, error)         { return callJ("Int_NPVV", r) }
func (r Int_NPVV) MarshalText() ([]byte, error)         { return callT("Int_NPVV", r) }

type Int_NPVP int

func (r *Int_NPVP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPVP", r, b) }
func (r Int_NPVP) MarshalJSON() ([]byte, error)         { return callJ("Int_NPVP", r) }
func (r *Int_NPVP) MarshalText() ([]byte, error)        { return callT("Int_NPVP", r) }

type Int_NPPN int

func (r *Int_NPPN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPPN", r, b) }
func (r *Int_NPPN) MarshalJSON() ([]byte, error)        { return callJ("Int_NPPN", r) }

type Int_NPPV int

func (r *Int_NPPV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPPV", r, b) }
func (r *Int_NPPV) MarshalJSON() ([]byte, error)        { return callJ("Int_NPPV", r) }
func (r Int_NPPV) MarshalText() ([]byte, error)         { return callT("Int_NPPV", r) }

type Int_NPPP int

func (r *Int_NPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_NPPP", r, b) }
func (r *Int_NPPP) MarshalJSON() ([]byte, error)        { return callJ("Int_NPPP", r) }
func (r *Int_NPPP) MarshalText() ([]byte, error)        { return callT("Int_NPPP", r) }

type Int_VNNN int

func (r Int_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNNN", r, c, b)
}

type Int_VNNV int

func (r Int_VNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNNV", r, c, b)
}
func (r Int_VNNV) MarshalText() ([]byte, error) { return callT("Int_VNNV", r) }

type Int_VNNP int

func (r Int_VNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNNP", r, c, b)
}
func (r *Int_VNNP) MarshalText() ([]byte, error) { return callT("Int_VNNP", r) }

type Int_VNVN int

func (r Int_VNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNVN", r, c, b)
}
func (r Int_VNVN) MarshalJSON() ([]byte, error) { return callJ("Int_VNVN", r) }

type Int_VNVV int

func (r Int_VNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNVV", r, c, b)
}
func (r Int_VNVV) MarshalJSON() ([]byte, error) { return callJ("Int_VNVV", r) }
func (r Int_VNVV) MarshalText() ([]byte, error) { return callT("Int_VNVV", r) }

type Int_VNVP int

func (r Int_VNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNVP", r, c, b)
}
func (r Int_VNVP) MarshalJSON() ([]byte, error)  { return callJ("Int_VNVP", r) }
func (r *Int_VNVP) MarshalText() ([]byte, error) { return callT("Int_VNVP", r) }

type Int_VNPN int

func (r Int_VNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNPN", r, c, b)
}
func (r *Int_VNPN) MarshalJSON() ([]byte, error) { return callJ("Int_VNPN", r) }

type Int_VNPV int

func (r Int_VNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNPV", r, c, b)
}
func (r *Int_VNPV) MarshalJSON() ([]byte, error) { return callJ("Int_VNPV", r) }
func (r Int_VNPV) MarshalText() ([]byte, error)  { return callT("Int_VNPV", r) }

type Int_VNPP int

func (r Int_VNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VNPP", r, c, b)
}
func (r *Int_VNPP) MarshalJSON() ([]byte, error) { return callJ("Int_VNPP", r) }
func (r *Int_VNPP) MarshalText() ([]byte, error) { return callT("Int_VNPP", r) }

type Int_VVNN int

func (r Int_VVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVNN", r, c, b)
}
func (r Int_VVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVNN", r, b) }

type Int_VVNV int

func (r Int_VVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVNV", r, c, b)
}
func (r Int_VVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVNV", r, b) }
func (r Int_VVNV) MarshalText() ([]byte, error)        { return callT("Int_VVNV", r) }

type Int_VVNP int

func (r Int_VVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVNP", r, c, b)
}
func (r Int_VVNP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVNP", r, b) }
func (r *Int_VVNP) MarshalText() ([]byte, error)       { return callT("Int_VVNP", r) }

type Int_VVVN int

func (r Int_VVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVVN", r, c, b)
}
func (r Int_VVVN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVVN", r, b) }
func (r Int_VVVN) MarshalJSON() ([]byte, error)        { return callJ("Int_VVVN", r) }

type Int_VVVV int

func (r Int_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVVV", r, c, b)
}
func (r Int_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVVV", r, b) }
func (r Int_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Int_VVVV", r) }
func (r Int_VVVV) MarshalText() ([]byte, error)        { return callT("Int_VVVV", r) }

type Int_VVVP int

func (r Int_VVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVVP", r, c, b)
}
func (r Int_VVVP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVVP", r, b) }
func (r Int_VVVP) MarshalJSON() ([]byte, error)        { return callJ("Int_VVVP", r) }
func (r *Int_VVVP) MarshalText() ([]byte, error)       { return callT("Int_VVVP", r) }

type Int_VVPN int

func (r Int_VVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVPN", r, c, b)
}
func (r Int_VVPN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVPN", r, b) }
func (r *Int_VVPN) MarshalJSON() ([]byte, error)       { return callJ("Int_VVPN", r) }

type Int_VVPV int

func (r Int_VVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVPV", r, c, b)
}
func (r Int_VVPV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVPV", r, b) }
func (r *Int_VVPV) MarshalJSON() ([]byte, error)       { return callJ("Int_VVPV", r) }
func (r Int_VVPV) MarshalText() ([]byte, error)        { return callT("Int_VVPV", r) }

type Int_VVPP int

func (r Int_VVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VVPP", r, c, b)
}
func (r Int_VVPP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VVPP", r, b) }
func (r *Int_VVPP) MarshalJSON() ([]byte, error)       { return callJ("Int_VVPP", r) }
func (r *Int_VVPP) MarshalText() ([]byte, error)       { return callT("Int_VVPP", r) }

type Int_VPNN int

func (r Int_VPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPNN", r, c, b)
}
func (r *Int_VPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPNN", r, b) }

type Int_VPNV int

func (r Int_VPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPNV", r, c, b)
}
func (r *Int_VPNV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPNV", r, b) }
func (r Int_VPNV) MarshalText() ([]byte, error)         { return callT("Int_VPNV", r) }

type Int_VPNP int

func (r Int_VPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPNP", r, c, b)
}
func (r *Int_VPNP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPNP", r, b) }
func (r *Int_VPNP) MarshalText() ([]byte, error)        { return callT("Int_VPNP", r) }

type Int_VPVN int

func (r Int_VPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPVN", r, c, b)
}
func (r *Int_VPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPVN", r, b) }
func (r Int_VPVN) MarshalJSON() ([]byte, error)         { return callJ("Int_VPVN", r) }

type Int_VPVV int

func (r Int_VPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPVV", r, c, b)
}
func (r *Int_VPVV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPVV", r, b) }
func (r Int_VPVV) MarshalJSON() ([]byte, error)         { return callJ("Int_VPVV", r) }
func (r Int_VPVV) MarshalText() ([]byte, error)         { return callT("Int_VPVV", r) }

type Int_VPVP int

func (r Int_VPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPVP", r, c, b)
}
func (r *Int_VPVP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPVP", r, b) }
func (r Int_VPVP) MarshalJSON() ([]byte, error)         { return callJ("Int_VPVP", r) }
func (r *Int_VPVP) MarshalText() ([]byte, error)        { return callT("Int_VPVP", r) }

type Int_VPPN int

func (r Int_VPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPPN", r, c, b)
}
func (r *Int_VPPN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPPN", r, b) }
func (r *Int_VPPN) MarshalJSON() ([]byte, error)        { return callJ("Int_VPPN", r) }

type Int_VPPV int

func (r Int_VPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPPV", r, c, b)
}
func (r *Int_VPPV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPPV", r, b) }
func (r *Int_VPPV) MarshalJSON() ([]byte, error)        { return callJ("Int_VPPV", r) }
func (r Int_VPPV) MarshalText() ([]byte, error)         { return callT("Int_VPPV", r) }

type Int_VPPP int

func (r Int_VPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_VPPP", r, c, b)
}
func (r *Int_VPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_VPPP", r, b) }
func (r *Int_VPPP) MarshalJSON() ([]byte, error)        { return callJ("Int_VPPP", r) }
func (r *Int_VPPP) MarshalText() ([]byte, error)        { return callT("Int_VPPP", r) }

type Int_PNNN int

func (r *Int_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNNN", r, c, b)
}

type Int_PNNV int

func (r *Int_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNNV", r, c, b)
}
func (r Int_PNNV) MarshalText() ([]byte, error) { return callT("Int_PNNV", r) }

type Int_PNNP int

func (r *Int_PNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNNP", r, c, b)
}
func (r *Int_PNNP) MarshalText() ([]byte, error) { return callT("Int_PNNP", r) }

type Int_PNVN int

func (r *Int_PNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNVN", r, c, b)
}
func (r Int_PNVN) MarshalJSON() ([]byte, error) { return callJ("Int_PNVN", r) }

type Int_PNVV int

func (r *Int_PNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNVV", r, c, b)
}
func (r Int_PNVV) MarshalJSON() ([]byte, error) { return callJ("Int_PNVV", r) }
func (r Int_PNVV) MarshalText() ([]byte, error) { return callT("Int_PNVV", r) }

type Int_PNVP int

func (r *Int_PNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNVP", r, c, b)
}
func (r Int_PNVP) MarshalJSON() ([]byte, error)  { return callJ("Int_PNVP", r) }
func (r *Int_PNVP) MarshalText() ([]byte, error) { return callT("Int_PNVP", r) }

type Int_PNPN int

func (r *Int_PNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNPN", r, c, b)
}
func (r *Int_PNPN) MarshalJSON() ([]byte, error) { return callJ("Int_PNPN", r) }

type Int_PNPV int

func (r *Int_PNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNPV", r, c, b)
}
func (r *Int_PNPV) MarshalJSON() ([]byte, error) { return callJ("Int_PNPV", r) }
func (r Int_PNPV) MarshalText() ([]byte, error)  { return callT("Int_PNPV", r) }

type Int_PNPP int

func (r *Int_PNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PNPP", r, c, b)
}
func (r *Int_PNPP) MarshalJSON() ([]byte, error) { return callJ("Int_PNPP", r) }
func (r *Int_PNPP) MarshalText() ([]byte, error) { return callT("Int_PNPP", r) }

type Int_PVNN int

func (r *Int_PVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVNN", r, c, b)
}
func (r Int_PVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVNN", r, b) }

type Int_PVNV int

func (r *Int_PVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVNV", r, c, b)
}
func (r Int_PVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVNV", r, b) }
func (r Int_PVNV) MarshalText() ([]byte, error)        { return callT("Int_PVNV", r) }

type Int_PVNP int

func (r *Int_PVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVNP", r, c, b)
}
func (r Int_PVNP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVNP", r, b) }
func (r *Int_PVNP) MarshalText() ([]byte, error)       { return callT("Int_PVNP", r) }

type Int_PVVN int

func (r *Int_PVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVVN", r, c, b)
}
func (r Int_PVVN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVVN", r, b) }
func (r Int_PVVN) MarshalJSON() ([]byte, error)        { return callJ("Int_PVVN", r) }

type Int_PVVV int

func (r *Int_PVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVVV", r, c, b)
}
func (r Int_PVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVVV", r, b) }
func (r Int_PVVV) MarshalJSON() ([]byte, error)        { return callJ("Int_PVVV", r) }
func (r Int_PVVV) MarshalText() ([]byte, error)        { return callT("Int_PVVV", r) }

type Int_PVVP int

func (r *Int_PVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVVP", r, c, b)
}
func (r Int_PVVP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVVP", r, b) }
func (r Int_PVVP) MarshalJSON() ([]byte, error)        { return callJ("Int_PVVP", r) }
func (r *Int_PVVP) MarshalText() ([]byte, error)       { return callT("Int_PVVP", r) }

type Int_PVPN int

func (r *Int_PVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVPN", r, c, b)
}
func (r Int_PVPN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVPN", r, b) }
func (r *Int_PVPN) MarshalJSON() ([]byte, error)       { return callJ("Int_PVPN", r) }

type Int_PVPV int

func (r *Int_PVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVPV", r, c, b)
}
func (r Int_PVPV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVPV", r, b) }
func (r *Int_PVPV) MarshalJSON() ([]byte, error)       { return callJ("Int_PVPV", r) }
func (r Int_PVPV) MarshalText() ([]byte, error)        { return callT("Int_PVPV", r) }

type Int_PVPP int

func (r *Int_PVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PVPP", r, c, b)
}
func (r Int_PVPP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PVPP", r, b) }
func (r *Int_PVPP) MarshalJSON() ([]byte, error)       { return callJ("Int_PVPP", r) }
func (r *Int_PVPP) MarshalText() ([]byte, error)       { return callT("Int_PVPP", r) }

type Int_PPNN int

func (r *Int_PPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPNN", r, c, b)
}
func (r *Int_PPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPNN", r, b) }

type Int_PPNV int

func (r *Int_PPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPNV", r, c, b)
}
func (r *Int_PPNV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPNV", r, b) }
func (r Int_PPNV) MarshalText() ([]byte, error)         { return callT("Int_PPNV", r) }

type Int_PPNP int

func (r *Int_PPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPNP", r, c, b)
}
func (r *Int_PPNP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPNP", r, b) }
func (r *Int_PPNP) MarshalText() ([]byte, error)        { return callT("Int_PPNP", r) }

type Int_PPVN int

func (r *Int_PPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPVN", r, c, b)
}
func (r *Int_PPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPVN", r, b) }
func (r Int_PPVN) MarshalJSON() ([]byte, error)         { return callJ("Int_PPVN", r) }

type Int_PPVV int

func (r *Int_PPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPVV", r, c, b)
}
func (r *Int_PPVV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPVV", r, b) }
func (r Int_PPVV) MarshalJSON() ([]byte, error)         { return callJ("Int_PPVV", r) }
func (r Int_PPVV) MarshalText() ([]byte, error)         { return callT("Int_PPVV", r) }

type Int_PPVP int

func (r *Int_PPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPVP", r, c, b)
}
func (r *Int_PPVP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPVP", r, b) }
func (r Int_PPVP) MarshalJSON() ([]byte, error)         { return callJ("Int_PPVP", r) }
func (r *Int_PPVP) MarshalText() ([]byte, error)        { return callT("Int_PPVP", r) }

type Int_PPPN int

func (r *Int_PPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPPN", r, c, b)
}
func (r *Int_PPPN) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPPN", r, b) }
func (r *Int_PPPN) MarshalJSON() ([]byte, error)        { return callJ("Int_PPPN", r) }

type Int_PPPV int

func (r *Int_PPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPPV", r, c, b)
}
func (r *Int_PPPV) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPPV", r, b) }
func (r *Int_PPPV) MarshalJSON() ([]byte, error)        { return callJ("Int_PPPV", r) }
func (r Int_PPPV) MarshalText() ([]byte, error)         { return callT("Int_PPPV", r) }

type Int_PPPP int

func (r *Int_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Int_PPPP", r, c, b)
}
func (r *Int_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Int_PPPP", r, b) }
func (r *Int_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Int_PPPP", r) }
func (r *Int_PPPP) MarshalText() ([]byte, error)        { return callT("Int_PPPP", r) }

type St2_NNNN struct {
	A int
	B string
}
type St2_NNNV struct {
	A int
	B string
}

func (r St2_NNNV) MarshalText() ([]byte, error) { return callT("St2_NNNV", r) }

type St2_NNNP struct {
	A int
	B string
}

func (r *St2_NNNP) MarshalText() ([]byte, error) { return callT("St2_NNNP", r) }

type St2_NNVN struct {
	A int
	B string
}

func (r St2_NNVN) MarshalJSON() ([]byte, error) { return callJ("St2_NNVN", r) }

type St2_NNVV struct {
	A int
	B string
}

func (r St2_NNVV) MarshalJSON() ([]byte, error) { return callJ("St2_NNVV", r) }
func (r St2_NNVV) MarshalText() ([]byte, error) { return callT("St2_NNVV", r) }

type St2_NNVP struct {
	A int
	B string
}

func (r St2_NNVP) MarshalJSON() ([]byte, error)  { return callJ("St2_NNVP", r) }
func (r *St2_NNVP) MarshalText() ([]byte, error) { return callT("St2_NNVP", r) }

type St2_NNPN struct {
	A int
	B string
}

func (r *St2_NNPN) MarshalJSON() ([]byte, error) { return callJ("St2_NNPN", r) }

type St2_NNPV struct {
	A int
	B string
}

func (r *St2_NNPV) MarshalJSON() ([]byte, error) { return callJ("St2_NNPV", r) }
func (r St2_NNPV) MarshalText() ([]byte, error)  { return callT("St2_NNPV", r) }

type St2_NNPP struct {
	A int
	B string
}

func (r *St2_NNPP) MarshalJSON() ([]byte, error) { return callJ("St2_NNPP", r) }
func (r *St2_NNPP) MarshalText() ([]byte, error) { return callT("St2_NNPP", r) }

type St2_NVNN struct {
	A int
	B string
}

func (r St2_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVNN", r, b) }

type St2_NVNV struct {
	A int
	B string
}

func (r St2_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVNV", r, b) }
func (r St2_NVNV) MarshalText() ([]byte, error)        { return callT("St2_NVNV", r) }

type St2_NVNP struct {
	A int
	B string
}

func (r St2_NVNP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVNP", r, b) }
func (r *St2_NVNP) MarshalText() ([]byte, error)       { return callT("St2_NVNP", r) }

type St2_NVVN struct {
	A int
	B string
}

func (r St2_NVVN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVVN", r, b) }
func (r St2_NVVN) MarshalJSON() ([]byte, error)        { return callJ("St2_NVVN", r) }

type St2_NVVV struct {
	A int
	B string
}

func (r St2_NVVV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVVV", r, b) }
func (r St2_NVVV) MarshalJSON() ([]byte, error)        { return callJ("St2_NVVV", r) }
func (r St2_NVVV) MarshalText() ([]byte, error)        { return callT("St2_NVVV", r) }

type St2_NVVP struct {
	A int
	B string
}

func (r St2_NVVP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVVP", r, b) }
func (r St2_NVVP) MarshalJSON() ([]byte, error)        { return callJ("St2_NVVP", r) }
func (r *St2_NVVP) MarshalText() ([]byte, error)       { return callT("St2_NVVP", r) }

type St2_NVPN struct {
	A int
	B string
}

func (r St2_NVPN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVPN", r, b) }
func (r *St2_NVPN) MarshalJSON() ([]byte, error)       { return callJ("St2_NVPN", r) }

type St2_NVPV struct {
	A int
	B string
}

func (r St2_NVPV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVPV", r, b) }
func (r *St2_NVPV) MarshalJSON() ([]byte, error)       { return callJ("St2_NVPV", r) }
func (r St2_NVPV) MarshalText() ([]byte, error)        { return callT("St2_NVPV", r) }

type St2_NVPP struct {
	A int
	B string
}

func (r St2_NVPP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NVPP", r, b) }
func (r *St2_NVPP) MarshalJSON() ([]byte, error)       { return callJ("St2_NVPP", r) }
func (r *St2_NVPP) MarshalText() ([]byte, error)       { return callT("St2_NVPP", r) }

type St2_NPNN struct {
	A int
	B string
}

func (r *St2_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPNN", r, b) }

type St2_NPNV struct {
	A int
	B string
}

func (r *St2_NPNV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPNV", r, b) }
func (r St2_NPNV) MarshalText() ([]byte, error)         { return callT("St2_NPNV", r) }

type St2_NPNP struct {
	A int
	B string
}

func (r *St2_NPNP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPNP", r, b) }
func (r *St2_NPNP) MarshalText() ([]byte, error)        { return callT("St2_NPNP", r) }

type St2_NPVN struct {
	A int
	B string
}

func (r *St2_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPVN", r, b) }
func (r St2_NPVN) MarshalJSON() ([]byte, error)         { return callJ("St2_NPVN", r) }

type St2_NPVV struct {
	A int
	B string
}

func (r *St2_NPVV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPVV", r, b) }
func (r St2_NPVV) MarshalJSON() ([]byte, error)         { return callJ("St2_NPVV", r) }
func (r St2_NPVV) MarshalText() ([]byte, error)         { return callT("St2_NPVV", r) }

type St2_NPVP struct {
	A int
	B string
}

func (r *St2_NPVP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPVP", r, b) }
func (r St2_NPVP) MarshalJSON() ([]byte, error)         { return callJ("St2_NPVP", r) }
func (r *St2_NPVP) MarshalText() ([]byte, error)        { return callT("St2_NPVP", r) }

type St2_NPPN struct {
	A int
	B string
}

func (r *St2_NPPN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPPN", r, b) }
func (r *St2_NPPN) MarshalJSON() ([]byte, error)        { return callJ("St2_NPPN", r) }

type St2_NPPV struct {
	A int
	B string
}

func (r *St2_NPPV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPPV", r, b) }
func (r *St2_NPPV) MarshalJSON() ([]byte, error)        { return callJ("St2_NPPV", r) }
func (r St2_NPPV) MarshalText() ([]byte, error)         { return callT("St2_NPPV", r) }

type St2_NPPP struct {
	A int
	B string
}

func (r *St2_NPPP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_NPPP", r, b) }
func (r *St2_NPPP) MarshalJSON() ([]byte, error)        { return callJ("St2_NPPP", r) }
func (r *St2_NPPP) MarshalText() ([]byte, error)        { return callT("St2_NPPP", r) }

type St2_VNNN struct {
	A int
	B string
}

func (r St2_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNNN", r, c, b)
}

type St2_VNNV struct {
	A int
	B string
}

func (r St2_VNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNNV", r, c, b)
}
func (r St2_VNNV) MarshalText() ([]byte, error) { return callT("St2_VNNV", r) }

type St2_VNNP struct {
	A int
	B string
}

func (r St2_VNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNNP", r, c, b)
}
func (r *St2_VNNP) MarshalText() ([]byte, error) { return callT("St2_VNNP", r) }

type St2_VNVN struct {
	A int
	B string
}

func (r St2_VNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNVN", r, c, b)
}
func (r St2_VNVN) MarshalJSON() ([]byte, error) { return callJ("St2_VNVN", r) }

type St2_VNVV struct {
	A int
	B string
}

func (r St2_VNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNVV", r, c, b)
}
func (r St2_VNVV) MarshalJSON() ([]byte, error) { return callJ("St2_VNVV", r) }
func (r St2_VNVV) MarshalText() ([]byte, error) { return callT("St2_VNVV", r) }

type St2_VNVP struct {
	A int
	B string
}

func (r St2_VNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNVP", r, c, b)
}
func (r St2_VNVP) MarshalJSON() ([]byte, error)  { return callJ("St2_VNVP", r) }
func (r *St2_VNVP) MarshalText() ([]byte, error) { return callT("St2_VNVP", r) }

type St2_VNPN struct {
	A int
	B string
}

func (r St2_VNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNPN", r, c, b)
}
func (r *St2_VNPN) MarshalJSON() ([]byte, error) { return callJ("St2_VNPN", r) }

type St2_VNPV struct {
	A int
	B string
}

func (r St2_VNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNPV", r, c, b)
}
func (r *St2_VNPV) MarshalJSON() ([]byte, error) { return callJ("St2_VNPV", r) }
func (r St2_VNPV) MarshalText() ([]byte, error)  { return callT("St2_VNPV", r) }

type St2_VNPP struct {
	A int
	B string
}

func (r St2_VNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VNPP", r, c, b)
}
func (r *St2_VNPP) MarshalJSON() ([]byte, error) { return callJ("St2_VNPP", r) }
func (r *St2_VNPP) MarshalText() ([]byte, error) { return callT("St2_VNPP", r) }

type St2_VVNN struct {
	A int
	B string
}

func (r St2_VVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVNN", r, c, b)
}
func (r St2_VVNN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVNN", r, b) }

type St2_VVNV struct {
	A int
	B string
}

func (r St2_VVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVNV", r, c, b)
}
func (r St2_VVNV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVNV", r, b) }
func (r St2_VVNV) MarshalText() ([]byte, error)        { return callT("St2_VVNV", r) }

type St2_VVNP struct {
	A int
	B string
}

func (r St2_VVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVNP", r, c, b)
}
func (r St2_VVNP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVNP", r, b) }
func (r *St2_VVNP) MarshalText() ([]byte, error)       { return callT("St2_VVNP", r) }

type St2_VVVN struct {
	A int
	B string
}

func (r St2_VVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVVN", r, c, b)
}
func (r St2_VVVN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVVN", r, b) }
func (r St2_VVVN) MarshalJSON() ([]byte, error)        { return callJ("St2_VVVN", r) }

type St2_VVVV struct {
	A int
	B string
}

func (r St2_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVVV", r, c, b)
}
func (r St2_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVVV", r, b) }
func (r St2_VVVV) MarshalJSON() ([]byte, error)        { return callJ("St2_VVVV", r) }
func (r St2_VVVV) MarshalText() ([]byte, error)        { return callT("St2_VVVV", r) }

type St2_VVVP struct {
	A int
	B string
}

func (r St2_VVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVVP", r, c, b)
}
func (r St2_VVVP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVVP", r, b) }
func (r St2_VVVP) MarshalJSON() ([]byte, error)        { return callJ("St2_VVVP", r) }
func (r *St2_VVVP) MarshalText() ([]byte, error)       { return callT("St2_VVVP", r) }

type St2_VVPN struct {
	A int
	B string
}

func (r St2_VVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVPN", r, c, b)
}
func (r St2_VVPN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVPN", r, b) }
func (r *St2_VVPN) MarshalJSON() ([]byte, error)       { return callJ("St2_VVPN", r) }

type St2_VVPV struct {
	A int
	B string
}

func (r St2_VVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVPV", r, c, b)
}
func (r St2_VVPV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVPV", r, b) }
func (r *St2_VVPV) MarshalJSON() ([]byte, error)       { return callJ("St2_VVPV", r) }
func (r St2_VVPV) MarshalText() ([]byte, error)        { return callT("St2_VVPV", r) }

type St2_VVPP struct {
	A int
	B string
}

func (r St2_VVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VVPP", r, c, b)
}
func (r St2_VVPP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VVPP", r, b) }
func (r *St2_VVPP) MarshalJSON() ([]byte, error)       { return callJ("St2_VVPP", r) }
func (r *St2_VVPP) MarshalText() ([]byte, error)       { return callT("St2_VVPP", r) }

type St2_VPNN struct {
	A int
	B string
}

func (r St2_VPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPNN", r, c, b)
}
func (r *St2_VPNN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPNN", r, b) }

type St2_VPNV struct {
	A int
	B string
}

func (r St2_VPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPNV", r, c, b)
}
func (r *St2_VPNV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPNV", r, b) }
func (r St2_VPNV) MarshalText() ([]byte, error)         { return callT("St2_VPNV", r) }

type St2_VPNP struct {
	A int
	B string
}

func (r St2_VPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPNP", r, c, b)
}
func (r *St2_VPNP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPNP", r, b) }
func (r *St2_VPNP) MarshalText() ([]byte, error)        { return callT("St2_VPNP", r) }

type St2_VPVN struct {
	A int
	B string
}

func (r St2_VPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPVN", r, c, b)
}
func (r *St2_VPVN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPVN", r, b) }
func (r St2_VPVN) MarshalJSON() ([]byte, error)         { return callJ("St2_VPVN", r) }

type St2_VPVV struct {
	A int
	B string
}

func (r St2_VPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPVV", r, c, b)
}
func (r *St2_VPVV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPVV", r, b) }
func (r St2_VPVV) MarshalJSON() ([]byte, error)         { return callJ("St2_VPVV", r) }
func (r St2_VPVV) MarshalText() ([]byte, error)         { return callT("St2_VPVV", r) }

type St2_VPVP struct {
	A int
	B string
}

func (r St2_VPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPVP", r, c, b)
}
func (r *St2_VPVP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPVP", r, b) }
func (r St2_VPVP) MarshalJSON() ([]byte, error)         { return callJ("St2_VPVP", r) }
func (r *St2_VPVP) MarshalText() ([]byte, error)        { return callT("St2_VPVP", r) }

type St2_VPPN struct {
	A int
	B string
}

func (r St2_VPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPPN", r, c, b)
}
func (r *St2_VPPN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPPN", r, b) }
func (r *St2_VPPN) MarshalJSON() ([]byte, error)        { return callJ("St2_VPPN", r) }

type St2_VPPV struct {
	A int
	B string
}

func (r St2_VPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPPV", r, c, b)
}
func (r *St2_VPPV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPPV", r, b) }
func (r *St2_VPPV) MarshalJSON() ([]byte, error)        { return callJ("St2_VPPV", r) }
func (r St2_VPPV) MarshalText() ([]byte, error)         { return callT("St2_VPPV", r) }

type St2_VPPP struct {
	A int
	B string
}

func (r St2_VPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_VPPP", r, c, b)
}
func (r *St2_VPPP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_VPPP", r, b) }
func (r *St2_VPPP) MarshalJSON() ([]byte, error)        { return callJ("St2_VPPP", r) }
func (r *St2_VPPP) MarshalText() ([]byte, error)        { return callT("St2_VPPP", r) }

type St2_PNNN struct {
	A int
	B string
}

func (r *St2_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNNN", r, c, b)
}

type St2_PNNV struct {
	A int
	B string
}

func (r *St2_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNNV", r, c, b)
}
func (r St2_PNNV) MarshalText() ([]byte, error) { return callT("St2_PNNV", r) }

type St2_PNNP struct {
	A int
	B string
}

func (r *St2_PNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNNP", r, c, b)
}
func (r *St2_PNNP) MarshalText() ([]byte, error) { return callT("St2_PNNP", r) }

type St2_PNVN struct {
	A int
	B string
}

func (r *St2_PNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNVN", r, c, b)
}
func (r St2_PNVN) MarshalJSON() ([]byte, error) { return callJ("St2_PNVN", r) }

type St2_PNVV struct {
	A int
	B string
}

func (r *St2_PNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNVV", r, c, b)
}
func (r St2_PNVV) MarshalJSON() ([]byte, error) { return callJ("St2_PNVV", r) }
func (r St2_PNVV) MarshalText() ([]byte, error) { return callT("St2_PNVV", r) }

type St2_PNVP struct {
	A int
	B string
}

func (r *St2_PNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNVP", r, c, b)
}
func (r St2_PNVP) MarshalJSON() ([]byte, error)  { return callJ("St2_PNVP", r) }
func (r *St2_PNVP) MarshalText() ([]byte, error) { return callT("St2_PNVP", r) }

type St2_PNPN struct {
	A int
	B string
}

func (r *St2_PNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNPN", r, c, b)
}
func (r *St2_PNPN) MarshalJSON() ([]byte, error) { return callJ("St2_PNPN", r) }

type St2_PNPV struct {
	A int
	B string
}

func (r *St2_PNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNPV", r, c, b)
}
func (r *St2_PNPV) MarshalJSON() ([]byte, error) { return callJ("St2_PNPV", r) }
func (r St2_PNPV) MarshalText() ([]byte, error)  { return callT("St2_PNPV", r) }

type St2_PNPP struct {
	A int
	B string
}

func (r *St2_PNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PNPP", r, c, b)
}
func (r *St2_PNPP) MarshalJSON() ([]byte, error) { return callJ("St2_PNPP", r) }
func (r *St2_PNPP) MarshalText() ([]byte, error) { return callT("St2_PNPP", r) }

type St2_PVNN struct {
	A int
	B string
}

func (r *St2_PVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVNN", r, c, b)
}
func (r St2_PVNN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVNN", r, b) }

type St2_PVNV struct {
	A int
	B string
}

func (r *St2_PVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVNV", r, c, b)
}
func (r St2_PVNV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVNV", r, b) }
func (r St2_PVNV) MarshalText() ([]byte, error)        { return callT("St2_PVNV", r) }

type St2_PVNP struct {
	A int
	B string
}

func (r *St2_PVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVNP", r, c, b)
}
func (r St2_PVNP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVNP", r, b) }
func (r *St2_PVNP) MarshalText() ([]byte, error)       { return callT("St2_PVNP", r) }

type St2_PVVN struct {
	A int
	B string
}

func (r *St2_PVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVVN", r, c, b)
}
func (r St2_PVVN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVVN", r, b) }
func (r St2_PVVN) MarshalJSON() ([]byte, error)        { return callJ("St2_PVVN", r) }

type St2_PVVV struct {
	A int
	B string
}

func (r *St2_PVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVVV", r, c, b)
}
func (r St2_PVVV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVVV", r, b) }
func (r St2_PVVV) MarshalJSON() ([]byte, error)        { return callJ("St2_PVVV", r) }
func (r St2_PVVV) MarshalText() ([]byte, error)        { return callT("St2_PVVV", r) }

type St2_PVVP struct {
	A int
	B string
}

func (r *St2_PVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVVP", r, c, b)
}
func (r St2_PVVP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVVP", r, b) }
func (r St2_PVVP) MarshalJSON() ([]byte, error)        { return callJ("St2_PVVP", r) }
func (r *St2_PVVP) MarshalText() ([]byte, error)       { return callT("St2_PVVP", r) }

type St2_PVPN struct {
	A int
	B string
}

func (r *St2_PVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVPN", r, c, b)
}
func (r St2_PVPN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVPN", r, b) }
func (r *St2_PVPN) MarshalJSON() ([]byte, error)       { return callJ("St2_PVPN", r) }

type St2_PVPV struct {
	A int
	B string
}

func (r *St2_PVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVPV", r, c, b)
}
func (r St2_PVPV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVPV", r, b) }
func (r *St2_PVPV) MarshalJSON() ([]byte, error)       { return callJ("St2_PVPV", r) }
func (r St2_PVPV) MarshalText() ([]byte, error)        { return callT("St2_PVPV", r) }

type St2_PVPP struct {
	A int
	B string
}

func (r *St2_PVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PVPP", r, c, b)
}
func (r St2_PVPP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PVPP", r, b) }
func (r *St2_PVPP) MarshalJSON() ([]byte, error)       { return callJ("St2_PVPP", r) }
func (r *St2_PVPP) MarshalText() ([]byte, error)       { return callT("St2_PVPP", r) }

type St2_PPNN struct {
	A int
	B string
}

func (r *St2_PPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPNN", r, c, b)
}
func (r *St2_PPNN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPNN", r, b) }

type St2_PPNV struct {
	A int
	B string
}

func (r *St2_PPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPNV", r, c, b)
}
func (r *St2_PPNV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPNV", r, b) }
func (r St2_PPNV) MarshalText() ([]byte, error)         { return callT("St2_PPNV", r) }

type St2_PPNP struct {
	A int
	B string
}

func (r *St2_PPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPNP", r, c, b)
}
func (r *St2_PPNP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPNP", r, b) }
func (r *St2_PPNP) MarshalText() ([]byte, error)        { return callT("St2_PPNP", r) }

type St2_PPVN struct {
	A int
	B string
}

func (r *St2_PPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPVN", r, c, b)
}
func (r *St2_PPVN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPVN", r, b) }
func (r St2_PPVN) MarshalJSON() ([]byte, error)         { return callJ("St2_PPVN", r) }

type St2_PPVV struct {
	A int
	B string
}

func (r *St2_PPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPVV", r, c, b)
}
func (r *St2_PPVV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPVV", r, b) }
func (r St2_PPVV) MarshalJSON() ([]byte, error)         { return callJ("St2_PPVV", r) }
func (r St2_PPVV) MarshalText() ([]byte, error)         { return callT("St2_PPVV", r) }

type St2_PPVP struct {
	A int
	B string
}

func (r *St2_PPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPVP", r, c, b)
}
func (r *St2_PPVP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPVP", r, b) }
func (r St2_PPVP) MarshalJSON() ([]byte, error)         { return callJ("St2_PPVP", r) }
func (r *St2_PPVP) MarshalText() ([]byte, error)        { return callT("St2_PPVP", r) }

type St2_PPPN struct {
	A int
	B string
}

func (r *St2_PPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPPN", r, c, b)
}
func (r *St2_PPPN) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPPN", r, b) }
func (r *St2_PPPN) MarshalJSON() ([]byte, error)        { return callJ("St2_PPPN", r) }

type St2_PPPV struct {
	A int
	B string
}

func (r *St2_PPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPPV", r, c, b)
}
func (r *St2_PPPV) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPPV", r, b) }
func (r *St2_PPPV) MarshalJSON() ([]byte, error)        { return callJ("St2_PPPV", r) }
func (r St2_PPPV) MarshalText() ([]byte, error)         { return callT("St2_PPPV", r) }

type St2_PPPP struct {
	A int
	B string
}

func (r *St2_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St2_PPPP", r, c, b)
}
func (r *St2_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("St2_PPPP", r, b) }
func (r *St2_PPPP) MarshalJSON() ([]byte, error)        { return callJ("St2_PPPP", r) }
func (r *St2_PPPP) MarshalText() ([]byte, error)        { return callT("St2_PPPP", r) }

type St1p_NNNN struct{ P *int }
type St1p_NNNV struct{ P *int }

func (r St1p_NNNV) MarshalText() ([]byte, error) { return callT("St1p_NNNV", r) }

type St1p_NNNP struct{ P *int }

func (r *St1p_NNNP) MarshalText() ([]byte, error) { return callT("St1p_NNNP", r) }

type St1p_NNVN struct{ P *int }

func (r St1p_NNVN) MarshalJSON() ([]byte, error) { return callJ("St1p_NNVN", r) }

type St1p_NNVV struct{ P *int }

func (r St1p_NNVV) MarshalJSON() ([]byte, error) { return callJ("St1p_NNVV", r) }
func (r St1p_NNVV) MarshalText() ([]byte, error) { return callT("St1p_NNVV", r) }

type St1p_NNVP struct{ P *int }

func (r St1p_NNVP) MarshalJSON() ([]byte, error)  { return callJ("St1p_NNVP", r) }
func (r *St1p_NNVP) MarshalText() ([]byte, error) { return callT("St1p_NNVP", r) }

type St1p_NNPN struct{ P *int }

func (r *St1p_NNPN) MarshalJSON() ([]byte, error) { return callJ("St1p_NNPN", r) }

type St1p_NNPV struct{ P *int }

func (r *St1p_NNPV) MarshalJSON() ([]byte, error) { return callJ("St1p_NNPV", r) }
func (r St1p_NNPV) MarshalText() ([]byte, error)  { return callT("St1p_NNPV", r) }

type St1p_NNPP struct{ P *int }

func (r *St1p_NNPP) MarshalJSON() ([]byte, error) { return callJ("St1p_NNPP", r) }
func (r *St1p_NNPP) MarshalText() ([]byte, error) { return callT("St1p_NNPP", r) }

type St1p_NVNN struct{ P *int }

func (r St1p_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVNN", r, b) }

type St1p_NVNV struct{ P *int }

func (r St1p_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVNV", r, b) }
func (r St1p_NVNV) MarshalText() ([]byte, error)        { return callT("St1p_NVNV", r) }

type St1p_NVNP struct{ P *int }

func (r St1p_NVNP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVNP", r, b) }
func (r *St1p_NVNP) MarshalText() ([]byte, error)       { return callT("St1p_NVNP", r) }

type St1p_NVVN struct{ P *int }

func (r St1p_NVVN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVVN", r, b) }
func (r St1p_NVVN) MarshalJSON() ([]byte, error)        { return callJ("St1p_NVVN", r) }

type St1p_NVVV struct{ P *int }

func (r St1p_NVVV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVVV", r, b) }
func (r St1p_NVVV) MarshalJSON() ([]byte, error)        { return callJ("St1p_NVVV", r) }
func (r St1p_NVVV) MarshalText() ([]byte, error)        { return callT("St1p_NVVV", r) }

type St1p_NVVP struct{ P *int }

func (r St1p_NVVP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVVP", r, b) }
func (r St1p_NVVP) MarshalJSON() ([]byte, error)        { return callJ("St1p_NVVP", r) }
func (r *St1p_NVVP) MarshalText() ([]byte, error)       { return callT("St1p_NVVP", r) }

type St1p_NVPN struct{ P *int }

func (r St1p_NVPN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVPN", r, b) }
func (r *St1p_NVPN) MarshalJSON() ([]byte, error)       { return callJ("St1p_NVPN", r) }

type St1p_NVPV struct{ P *int }

func (r St1p_NVPV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVPV", r, b) }
func (r *St1p_NVPV) MarshalJSON() ([]byte, error)       { return callJ("St1p_NVPV", r) }
func (r St1p_NVPV) MarshalText() ([]byte, error)        { return callT("St1p_NVPV", r) }

type St1p_NVPP struct{ P *int }

func (r St1p_NVPP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NVPP", r, b) }
func (r *St1p_NVPP) MarshalJSON() ([]byte, error)       { return callJ("St1p_NVPP", r) }
func (r *St1p_NVPP) MarshalText() ([]byte, error)       { return callT("St1p_NVPP", r) }

type St1p_NPNN struct{ P *int }

func (r *St1p_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPNN", r, b) }

type St1p_NPNV struct{ P *int }

func (r *St1p_NPNV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPNV", r, b) }
func (r St1p_NPNV) MarshalText() ([]byte, error)         { return callT("St1p_NPNV", r) }

type St1p_NPNP struct{ P *int }

func (r *St1p_NPNP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPNP", r, b) }
func (r *St1p_NPNP) MarshalText() ([]byte, error)        { return callT("St1p_NPNP", r) }

type St1p_NPVN struct{ P *int }

func (r *St1p_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPVN", r, b) }
func (r St1p_NPVN) MarshalJSON() ([]byte, error)         { return callJ("St1p_NPVN", r) }

type St1p_NPVV struct{ P *int }

func (r *St1p_NPVV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPVV", r, b) }
func (r St1p_NPVV) MarshalJSON() ([]byte, error)         { return callJ("St1p_NPVV", r) }
func (r St1p_NPVV) MarshalText() ([]byte, error)         { return callT("St1p_NPVV", r) }

type St1p_NPVP struct{ P *int }

func (r *St1p_NPVP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPVP", r, b) }
func (r St1p_NPVP) MarshalJSON() ([]byte, error)         { return callJ("St1p_NPVP", r) }
func (r *St1p_NPVP) MarshalText() ([]byte, error)        { return callT("St1p_NPVP", r) }

type St1p_NPPN struct{ P *int }

func (r *St1p_NPPN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPPN", r, b) }
func (r *St1p_NPPN) MarshalJSON() ([]byte, error)        { return callJ("St1p_NPPN", r) }

type St1p_NPPV struct{ P *int }

func (r *St1p_NPPV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPPV", r, b) }
func (r *St1p_NPPV) MarshalJSON() ([]byte, error)        { return callJ("St1p_NPPV", r) }
func (r St1p_NPPV) MarshalText() ([]byte, error)         { return callT("St1p_NPPV", r) }

type St1p_NPPP struct{ P *int }

func (r *St1p_NPPP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_NPPP", r, b) }
func (r *St1p_NPPP) MarshalJSON() ([]byte, error)        { return callJ("St1p_NPPP", r) }
func (r *St1p_NPPP) MarshalText() ([]byte, error)        { return callT("St1p_NPPP", r) }

type St1p_VNNN struct{ P *int }

func (r St1p_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNNN", r, c, b)
}

type St1p_VNNV struct{ P *int }

func (r St1p_VNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNNV", r, c, b)
}
func (r St1p_VNNV) MarshalText() ([]byte, error) { return callT("St1p_VNNV", r) }

type St1p_VNNP struct{ P *int }

func (r St1p_VNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNNP", r, c, b)
}
func (r *St1p_VNNP) MarshalText() ([]byte, error) { return callT("St1p_VNNP", r) }

type St1p_VNVN struct{ P *int }

func (r St1p_VNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNVN", r, c, b)
}
func (r St1p_VNVN) MarshalJSON() ([]byte, error) { return callJ("St1p_VNVN", r) }

type St1p_VNVV struct{ P *int }

func (r St1p_VNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNVV", r, c, b)
}
func (r St1p_VNVV) MarshalJSON() ([]byte, error) { return callJ("St1p_VNVV", r) }
func (r St1p_VNVV) MarshalText() ([]byte, error) { return callT("St1p_VNVV", r) }

type St1p_VNVP struct{ P *int }

func (r St1p_VNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNVP", r, c, b)
}
func (r St1p_VNVP) MarshalJSON() ([]byte, error)  { return callJ("St1p_VNVP", r) }
func (r *St1p_VNVP) MarshalText() ([]byte, error) { return callT("St1p_VNVP", r) }

type St1p_VNPN struct{ P *int }

func (r St1p_VNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNPN", r, c, b)
}
func (r *St1p_VNPN) MarshalJSON() ([]byte, error) { return callJ("St1p_VNPN", r) }

type St1p_VNPV struct{ P *int }

func (r St1p_VNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNPV", r, c, b)
}
func (r *St1p_VNPV) MarshalJSON() ([]byte, error) { return callJ("St1p_VNPV", r) }
func (r St1p_VNPV) MarshalText() ([]byte, error)  { return callT("St1p_VNPV", r) }

type St1p_VNPP struct{ P *int }

func (r St1p_VNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VNPP", r, c, b)
}
func (r *St1p_VNPP) MarshalJSON() ([]byte, error) { return callJ("St1p_VNPP", r) }
func (r *St1p_VNPP) MarshalText() ([]byte, error) { return callT("St1p_VNPP", r) }

type St1p_VVNN struct{ P *int }

func (r St1p_VVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVNN", r, c, b)
}
func (r St1p_VVNN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVNN", r, b) }

type St1p_VVNV struct{ P *int }

func (r St1p_VVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVNV", r, c, b)
}
func (r St1p_VVNV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVNV", r, b) }
func (r St1p_VVNV) MarshalText() ([]byte, error)        { return callT("St1p_VVNV", r) }

type St1p_VVNP struct{ P *int }

func (r St1p_VVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVNP", r, c, b)
}
func (r St1p_VVNP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVNP", r, b) }
func (r *St1p_VVNP) MarshalText() ([]byte, error)       { return callT("St1p_VVNP", r) }

type St1p_VVVN struct{ P *int }

func (r St1p_VVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVVN", r, c, b)
}
func (r St1p_VVVN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVVN", r, b) }
func (r St1p_VVVN) MarshalJSON() ([]byte, error)        { return callJ("St1p_VVVN", r) }

type St1p_VVVV struct{ P *int }

func (r St1p_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVVV", r, c, b)
}
func (r St1p_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVVV", r, b) }
func (r St1p_VVVV) MarshalJSON() ([]byte, error)        { return callJ("St1p_VVVV", r) }
func (r St1p_VVVV) MarshalText() ([]byte, error)        { return callT("St1p_VVVV", r) }

type St1p_VVVP struct{ P *int }

func (r St1p_VVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVVP", r, c, b)
}
func (r St1p_VVVP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVVP", r, b) }
func (r St1p_VVVP) MarshalJSON() ([]byte, error)        { return callJ("St1p_VVVP", r) }
func (r *St1p_VVVP) MarshalText() ([]byte, error)       { return callT("St1p_VVVP", r) }

type St1p_VVPN struct{ P *int }

func (r St1p_VVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVPN", r, c, b)
}
func (r St1p_VVPN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVPN", r, b) }
func (r *St1p_VVPN) MarshalJSON() ([]byte, error)       { return callJ("St1p_VVPN", r) }

type St1p_VVPV struct{ P *int }

func (r St1p_VVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVPV", r, c, b)
}
func (r St1p_VVPV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVPV", r, b) }
func (r *St1p_VVPV) MarshalJSON() ([]byte, error)       { return callJ("St1p_VVPV", r) }
func (r St1p_VVPV) MarshalText() ([]byte, error)        { return callT("St1p_VVPV", r) }

type St1p_VVPP struct{ P *int }

func (r St1p_VVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VVPP", r, c, b)
}
func (r St1p_VVPP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VVPP", r, b) }
func (r *St1p_VVPP) MarshalJSON() ([]byte, error)       { return callJ("St1p_VVPP", r) }
func (r *St1p_VVPP) MarshalText() ([]byte, error)       { return callT("St1p_VVPP", r) }

type St1p_VPNN struct{ P *int }

func (r St1p_VPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPNN", r, c, b)
}
func (r *St1p_VPNN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPNN", r, b) }

type St1p_VPNV struct{ P *int }

func (r St1p_VPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPNV", r, c, b)
}
func (r *St1p_VPNV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPNV", r, b) }
func (r St1p_VPNV) MarshalText() ([]byte, error)         { return callT("St1p_VPNV", r) }

type St1p_VPNP struct{ P *int }

func (r St1p_VPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPNP", r, c, b)
}
func (r *St1p_VPNP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPNP", r, b) }
func (r *St1p_VPNP) MarshalText() ([]byte, error)        { return callT("St1p_VPNP", r) }

type St1p_VPVN struct{ P *int }

func (r St1p_VPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPVN", r, c, b)
}
func (r *St1p_VPVN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPVN", r, b) }
func (r St1p_VPVN) MarshalJSON() ([]byte, error)         { return callJ("St1p_VPVN", r) }

type St1p_VPVV struct{ P *int }

func (r St1p_VPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPVV", r, c, b)
}
func (r *St1p_VPVV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPVV", r, b) }
func (r St1p_VPVV) MarshalJSON() ([]byte, error)         { return callJ("St1p_VPVV", r) }
func (r St1p_VPVV) MarshalText() ([]byte, error)         { return callT("St1p_VPVV", r) }

type St1p_VPVP struct{ P *int }

func (r St1p_VPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPVP", r, c, b)
}
func (r *St1p_VPVP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPVP", r, b) }
func (r St1p_VPVP) MarshalJSON() ([]byte, error)         { return callJ("St1p_VPVP", r) }
func (r *St1p_VPVP) MarshalText() ([]byte, error)        { return callT("St1p_VPVP", r) }

type St1p_VPPN struct{ P *int }

func (r St1p_VPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPPN", r, c, b)
}
func (r *St1p_VPPN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPPN", r, b) }
func (r *St1p_VPPN) MarshalJSON() ([]byte, error)        { return callJ("St1p_VPPN", r) }

type St1p_VPPV struct{ P *int }

func (r St1p_VPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPPV", r, c, b)
}
func (r *St1p_VPPV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPPV", r, b) }
func (r *St1p_VPPV) MarshalJSON() ([]byte, error)        { return callJ("St1p_VPPV", r) }
func (r St1p_VPPV) MarshalText() ([]byte, error)         { return callT("St1p_VPPV", r) }

type St1p_VPPP struct{ P *int }

func (r St1p_VPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_VPPP", r, c, b)
}
func (r *St1p_VPPP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_VPPP", r, b) }
func (r *St1p_VPPP) MarshalJSON() ([]byte, error)        { return callJ("St1p_VPPP", r) }
func (r *St1p_VPPP) MarshalText() ([]byte, error)        { return callT("St1p_VPPP", r) }

type St1p_PNNN struct{ P *int }

func (r *St1p_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNNN", r, c, b)
}

type St1p_PNNV struct{ P *int }

func (r *St1p_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNNV", r, c, b)
}
func (r St1p_PNNV) MarshalText() ([]byte, error) { return callT("St1p_PNNV", r) }

type St1p_PNNP struct{ P *int }

func (r *St1p_PNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNNP", r, c, b)
}
func (r *St1p_PNNP) MarshalText() ([]byte, error) { return callT("St1p_PNNP", r) }

type St1p_PNVN struct{ P *int }

func (r *St1p_PNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNVN", r, c, b)
}
func (r St1p_PNVN) MarshalJSON() ([]byte, error) { return callJ("St1p_PNVN", r) }

type St1p_PNVV struct{ P *int }

func (r *St1p_PNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNVV", r, c, b)
}
func (r St1p_PNVV) MarshalJSON() ([]byte, error) { return callJ("St1p_PNVV", r) }
func (r St1p_PNVV) MarshalText() ([]byte, error) { return callT("St1p_PNVV", r) }

type St1p_PNVP struct{ P *int }

func (r *St1p_PNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNVP", r, c, b)
}
func (r St1p_PNVP) MarshalJSON() ([]byte, error)  { return callJ("St1p_PNVP", r) }
func (r *St1p_PNVP) MarshalText() ([]byte, error) { return callT("St1p_PNVP", r) }

type St1p_PNPN struct{ P *int }

func (r *St1p_PNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNPN", r, c, b)
}
func (r *St1p_PNPN) MarshalJSON() ([]byte, error) { return callJ("St1p_PNPN", r) }

type St1p_PNPV struct{ P *int }

func (r *St1p_PNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNPV", r, c, b)
}
func (r *St1p_PNPV) MarshalJSON() ([]byte, error) { return callJ("St1p_PNPV", r) }
func (r St1p_PNPV) MarshalText() ([]byte, error)  { return callT("St1p_PNPV", r) }

type St1p_PNPP struct{ P *int }

func (r *St1p_PNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PNPP", r, c, b)
}
func (r *St1p_PNPP) MarshalJSON() ([]byte, error) { return callJ("St1p_PNPP", r) }
func (r *St1p_PNPP) MarshalText() ([]byte, error) { return callT("St1p_PNPP", r) }

type St1p_PVNN struct{ P *int }

func (r *St1p_PVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVNN", r, c, b)
}
func (r St1p_PVNN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVNN", r, b) }

type St1p_PVNV struct{ P *int }

func (r *St1p_PVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVNV", r, c, b)
}
func (r St1p_PVNV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVNV", r, b) }
func (r St1p_PVNV) MarshalText() ([]byte, error)        { return callT("St1p_PVNV", r) }

type St1p_PVNP struct{ P *int }

func (r *St1p_PVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVNP", r, c, b)
}
func (r St1p_PVNP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVNP", r, b) }
func (r *St1p_PVNP) MarshalText() ([]byte, error)       { return callT("St1p_PVNP", r) }

type St1p_PVVN struct{ P *int }

func (r *St1p_PVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVVN", r, c, b)
}
func (r St1p_PVVN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVVN", r, b) }
func (r St1p_PVVN) MarshalJSON() ([]byte, error)        { return callJ("St1p_PVVN", r) }

type St1p_PVVV struct{ P *int }

func (r *St1p_PVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVVV", r, c, b)
}
func (r St1p_PVVV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVVV", r, b) }
func (r St1p_PVVV) MarshalJSON() ([]byte, error)        { return callJ("St1p_PVVV", r) }
func (r St1p_PVVV) MarshalText() ([]byte, error)        { return callT("St1p_PVVV", r) }

type St1p_PVVP struct{ P *int }

func (r *St1p_PVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVVP", r, c, b)
}
func (r St1p_PVVP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVVP", r, b) }
func (r St1p_PVVP) MarshalJSON() ([]byte, error)        { return callJ("St1p_PVVP", r) }
func (r *St1p_PVVP) MarshalText() ([]byte, error)       { return callT("St1p_PVVP", r) }

type St1p_PVPN struct{ P *int }

func (r *St1p_PVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVPN", r, c, b)
}
func (r St1p_PVPN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVPN", r, b) }
func (r *St1p_PVPN) MarshalJSON() ([]byte, error)       { return callJ("St1p_PVPN", r) }

type St1p_PVPV struct{ P *int }

func (r *St1p_PVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVPV", r, c, b)
}
func (r St1p_PVPV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVPV", r, b) }
func (r *St1p_PVPV) MarshalJSON() ([]byte, error)       { return callJ("St1p_PVPV", r) }
func (r St1p_PVPV) MarshalText() ([]byte, error)        { return callT("St1p_PVPV", r) }

type St1p_PVPP struct{ P *int }

func (r *St1p_PVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PVPP", r, c, b)
}
func (r St1p_PVPP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PVPP", r, b) }
func (r *St1p_PVPP) MarshalJSON() ([]byte, error)       { return callJ("St1p_PVPP", r) }
func (r *St1p_PVPP) MarshalText() ([]byte, error)       { return callT("St1p_PVPP", r) }

type St1p_PPNN struct{ P *int }

func (r *St1p_PPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPNN", r, c, b)
}
func (r *St1p_PPNN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPNN", r, b) }

type St1p_PPNV struct{ P *int }

func (r *St1p_PPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPNV", r, c, b)
}
func (r *St1p_PPNV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPNV", r, b) }
func (r St1p_PPNV) MarshalText() ([]byte, error)         { return callT("St1p_PPNV", r) }

type St1p_PPNP struct{ P *int }

func (r *St1p_PPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPNP", r, c, b)
}
func (r *St1p_PPNP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPNP", r, b) }
func (r *St1p_PPNP) MarshalText() ([]byte, error)        { return callT("St1p_PPNP", r) }

type St1p_PPVN struct{ P *int }

func (r *St1p_PPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPVN", r, c, b)
}
func (r *St1p_PPVN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPVN", r, b) }
func (r St1p_PPVN) MarshalJSON() ([]byte, error)         { return callJ("St1p_PPVN", r) }

type St1p_PPVV struct{ P *int }

func (r *St1p_PPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPVV", r, c, b)
}
func (r *St1p_PPVV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPVV", r, b) }
func (r St1p_PPVV) MarshalJSON() ([]byte, error)         { return callJ("St1p_PPVV", r) }
func (r St1p_PPVV) MarshalText() ([]byte, error)         { return callT("St1p_PPVV", r) }

type St1p_PPVP struct{ P *int }

func (r *St1p_PPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPVP", r, c, b)
}
func (r *St1p_PPVP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPVP", r, b) }
func (r St1p_PPVP) MarshalJSON() ([]byte, error)         { return callJ("St1p_PPVP", r) }
func (r *St1p_PPVP) MarshalText() ([]byte, error)        { return callT("St1p_PPVP", r) }

type St1p_PPPN struct{ P *int }

func (r *St1p_PPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPPN", r, c, b)
}
func (r *St1p_PPPN) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPPN", r, b) }
func (r *St1p_PPPN) MarshalJSON() ([]byte, error)        { return callJ("St1p_PPPN", r) }

type St1p_PPPV struct{ P *int }

func (r *St1p_PPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPPV", r, c, b)
}
func (r *St1p_PPPV) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPPV", r, b) }
func (r *St1p_PPPV) MarshalJSON() ([]byte, error)        { return callJ("St1p_PPPV", r) }
func (r St1p_PPPV) MarshalText() ([]byte, error)         { return callT("St1p_PPPV", r) }

type St1p_PPPP struct{ P *int }

func (r *St1p_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St1p_PPPP", r, c, b)
}
func (r *St1p_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("St1p_PPPP", r, b) }
func (r *St1p_PPPP) MarshalJSON() ([]byte, error)        { return callJ("St1p_PPPP", r) }
func (r *St1p_PPPP) MarshalText() ([]byte, error)        { return callT("St1p_PPPP", r) }

type Map_NNNN map[string]int
type Map_NNNV map[string]int

func (r Map_NNNV) MarshalText() ([]byte, error) { return callT("Map_NNNV", r) }

type Map_NNNP map[string]int

func (r *Map_NNNP) MarshalText() ([]byte, error) { return callT("Map_NNNP", r) }

type Map_NNVN map[string]int

func (r Map_NNVN) MarshalJSON() ([]byte, error) { return callJ("Map_NNVN", r) }

type Map_NNVV map[string]int

func (r Map_NNVV) MarshalJSON() ([]byte, error) { return callJ("Map_NNVV", r) }
func (r Map_NNVV) MarshalText() ([]byte, error) { return callT("Map_NNVV", r) }

type Map_NNVP map[string]int

func (r Map_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Map_NNVP", r) }
func (r *Map_NNVP) MarshalText() ([]byte, error) { return callT("Map_NNVP", r) }

type Map_NNPN map[string]int

func (r *Map_NNPN) MarshalJSON() ([]byte, error) { return callJ("Map_NNPN", r) }

type Map_NNPV map[string]int

func (r *Map_NNPV) MarshalJSON() ([]byte, error) { return callJ("Map_NNPV", r) }
func (r Map_NNPV) MarshalText() ([]byte, error)  { return callT("Map_NNPV", r) }

type Map_NNPP map[string]int

func (r *Map_NNPP) MarshalJSON() ([]byte, error) { return callJ("Map_NNPP", r) }
func (r *Map_NNPP) MarshalText() ([]byte, error) { return callT("Map_NNPP", r) }

type Map_NVNN map[string]int

func (r Map_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVNN", r, b) }

type Map_NVNV map[string]int

func (r Map_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVNV", r, b) }
func (r Map_NVNV) MarshalText() ([]byte, error)        { return callT("Map_NVNV", r) }

type Map_NVNP map[string]int

func (r Map_NVNP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVNP", r, b) }
func (r *Map_NVNP) MarshalText() ([]byte, error)       { return callT("Map_NVNP", r) }

type Map_NVVN map[string]int

func (r Map_NVVN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVVN", r, b) }
func (r Map_NVVN) MarshalJSON() ([]byte, error)        { return callJ("Map_NVVN", r) }

type Map_NVVV map[string]int

func (r Map_NVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVVV", r, b) }
func (r Map_NVVV) MarshalJSON() ([]byte, error)        { return callJ("Map_NVVV", r) }
func (r Map_NVVV) MarshalText() ([]byte, error)        { return callT("Map_NVVV", r) }

type Map_NVVP map[string]int

func (r Map_NVVP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVVP", r, b) }
func (r Map_NVVP) MarshalJSON() ([]byte, error)        { return callJ("Map_NVVP", r) }
func (r *Map_NVVP) MarshalText() ([]byte, error)       { return callT("Map_NVVP", r) }

type Map_NVPN map[string]int

func (r Map_NVPN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVPN", r, b) }
func (r *Map_NVPN) MarshalJSON() ([]byte, error)       { return callJ("Map_NVPN", r) }

type Map_NVPV map[string]int

func (r Map_NVPV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVPV", r, b) }
func (r *Map_NVPV) MarshalJSON() ([]byte, error)       { return callJ("Map_NVPV", r) }
func (r Map_NVPV) MarshalText() ([]byte, error)        { return callT("Map_NVPV", r) }

type Map_NVPP map[string]int

func (r Map_NVPP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NVPP", r, b) }
func (r *Map_NVPP) MarshalJSON() ([]byte, error)       { return callJ("Map_NVPP", r) }
func (r *Map_NVPP) MarshalText() ([]byte, error)       { return callT("Map_NVPP", r) }

type Map_NPNN map[string]int

func (r *Map_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPNN", r, b) }

type Map_NPNV map[string]int

func (r *Map_NPNV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPNV", r, b) }
func (r Map_NPNV) MarshalText() ([]byte, error)         { return callT("Map_NPNV", r) }

type Map_NPNP map[string]int

func (r *Map_NPNP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPNP", r, b) }
func (r *Map_NPNP) MarshalText() ([]byte, error)        { return callT("Map_NPNP", r) }

type Map_NPVN map[string]int

func (r *Map_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPVN", r, b) }
func (r Map_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Map_NPVN", r) }

type Map_NPVV map[string]int

func (r *Map_NPVV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPVV", r, b) }
func (r Map_NPVV) MarshalJSON() ([]byte, error)         { return callJ("Map_NPVV", r) }
func (r Map_NPVV) MarshalText() ([]byte, error)         { return callT("Map_NPVV", r) }

type Map_NPVP map[string]int

func (r *Map_NPVP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPVP", r, b) }
func (r Map_NPVP) MarshalJSON() ([]byte, error)         { return callJ("Map_NPVP", r) }
func (r *Map_NPVP) MarshalText() ([]byte, error)        { return callT("Map_NPVP", r) }

type Map_NPPN map[string]int

func (r *Map_NPPN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPPN", r, b) }
func (r *Map_NPPN) MarshalJSON() ([]byte, error)        { return callJ("Map_NPPN", r) }

type Map_NPPV map[string]int

func (r *Map_NPPV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPPV", r, b) }
func (r *Map_NPPV) MarshalJSON() ([]byte, error)        { return callJ("Map_NPPV", r) }
func (r Map_NPPV) MarshalText() ([]byte, error)         { return callT("Map_NPPV", r) }

type Map_NPPP map[string]int

func (r *Map_NPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_NPPP", r, b) }
func (r *Map_NPPP) MarshalJSON() ([]byte, error)        { return callJ("Map_NPPP", r) }
func (r *Map_NPPP) MarshalText() ([]byte, error)        { return callT("Map_NPPP", r) }

type Map_VNNN map[string]int

func (r Map_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNNN", r, c, b)
}

type Map_VNNV map[string]int

func (r Map_VNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNNV", r, c, b)
}
func (r Map_VNNV) MarshalText() ([]byte, error) { return callT("Map_VNNV", r) }

type Map_VNNP map[string]int

func (r Map_VNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNNP", r, c, b)
}
func (r *Map_VNNP) MarshalText() ([]byte, error) { return callT("Map_VNNP", r) }

type Map_VNVN map[string]int

func (r Map_VNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNVN", r, c, b)
}
func (r Map_VNVN) MarshalJSON() ([]byte, error) { return callJ("Map_VNVN", r) }

type Map_VNVV map[string]int

func (r Map_VNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNVV", r, c, b)
}
func (r Map_VNVV) MarshalJSON() ([]byte, error) { return callJ("Map_VNVV", r) }
func (r Map_VNVV) MarshalText() ([]byte, error) { return callT("Map_VNVV", r) }

type Map_VNVP map[string]int

func (r Map_VNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNVP", r, c, b)
}
func (r Map_VNVP) MarshalJSON() ([]byte, error)  { return callJ("Map_VNVP", r) }
func (r *Map_VNVP) MarshalText() ([]byte, error) { return callT("Map_VNVP", r) }

type Map_VNPN map[string]int

func (r Map_VNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNPN", r, c, b)
}
func (r *Map_VNPN) MarshalJSON() ([]byte, error) { return callJ("Map_VNPN", r) }

type Map_VNPV map[string]int

func (r Map_VNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNPV", r, c, b)
}
func (r *Map_VNPV) MarshalJSON() ([]byte, error) { return callJ("Map_VNPV", r) }
func (r Map_VNPV) MarshalText() ([]byte, error)  { return callT("Map_VNPV", r) }

type Map_VNPP map[string]int

func (r Map_VNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VNPP", r, c, b)
}
func (r *Map_VNPP) MarshalJSON() ([]byte, error) { return callJ("Map_VNPP", r) }
func (r *Map_VNPP) MarshalText() ([]byte, error) { return callT("Map_VNPP", r) }

type Map_VVNN map[string]int

func (r Map_VVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVNN", r, c, b)
}
func (r Map_VVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVNN", r, b) }

type Map_VVNV map[string]int

func (r Map_VVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVNV", r, c, b)
}
func (r Map_VVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVNV", r, b) }
func (r Map_VVNV) MarshalText() ([]byte, error)        { return callT("Map_VVNV", r) }

type Map_VVNP map[string]int

func (r Map_VVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVNP", r, c, b)
}
func (r Map_VVNP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVNP", r, b) }
func (r *Map_VVNP) MarshalText() ([]byte, error)       { return callT("Map_VVNP", r) }

type Map_VVVN map[string]int

func (r Map_VVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVVN", r, c, b)
}
func (r Map_VVVN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVVN", r, b) }
func (r Map_VVVN) MarshalJSON() ([]byte, error)        { return callJ("Map_VVVN", r) }

type Map_VVVV map[string]int

func (r Map_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVVV", r, c, b)
}
func (r Map_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVVV", r, b) }
func (r Map_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Map_VVVV", r) }
func (r Map_VVVV) MarshalText() ([]byte, error)        { return callT("Map_VVVV", r) }

type Map_VVVP map[string]int

func (r Map_VVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVVP", r, c, b)
}
func (r Map_VVVP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVVP", r, b) }
func (r Map_VVVP) MarshalJSON() ([]byte, error)        { return callJ("Map_VVVP", r) }
func (r *Map_VVVP) MarshalText() ([]byte, error)       { return callT("Map_VVVP", r) }

type Map_VVPN map[string]int

func (r Map_VVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVPN", r, c, b)
}
func (r Map_VVPN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVPN", r, b) }
func (r *Map_VVPN) MarshalJSON() ([]byte, error)       { return callJ("Map_VVPN", r) }

type Map_VVPV map[string]int

func (r Map_VVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVPV", r, c, b)
}
func (r Map_VVPV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVPV", r, b) }
func (r *Map_VVPV) MarshalJSON() ([]byte, error)       { return callJ("Map_VVPV", r) }
func (r Map_VVPV) MarshalText() ([]byte, error)        { return callT("Map_VVPV", r) }

type Map_VVPP map[string]int

func (r Map_VVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VVPP", r, c, b)
}
func (r Map_VVPP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VVPP", r, b) }
func (r *Map_VVPP) MarshalJSON() ([]byte, error)       { return callJ("Map_VVPP", r) }
func (r *Map_VVPP) MarshalText() ([]byte, error)       { return callT("Map_VVPP", r) }

type Map_VPNN map[string]int

func (r Map_VPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPNN", r, c, b)
}
func (r *Map_VPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPNN", r, b) }

type Map_VPNV map[string]int

func (r Map_VPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPNV", r, c, b)
}
func (r *Map_VPNV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPNV", r, b) }
func (r Map_VPNV) MarshalText() ([]byte, error)         { return callT("Map_VPNV", r) }

type Map_VPNP map[string]int

func (r Map_VPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPNP", r, c, b)
}
func (r *Map_VPNP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPNP", r, b) }
func (r *Map_VPNP) MarshalText() ([]byte, error)        { return callT("Map_VPNP", r) }

type Map_VPVN map[string]int

func (r Map_VPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPVN", r, c, b)
}
func (r *Map_VPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPVN", r, b) }
func (r Map_VPVN) MarshalJSON() ([]byte, error)         { return callJ("Map_VPVN", r) }

type Map_VPVV map[string]int

func (r Map_VPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPVV", r, c, b)
}
func (r *Map_VPVV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPVV", r, b) }
func (r Map_VPVV) MarshalJSON() ([]byte, error)         { return callJ("Map_VPVV", r) }
func (r Map_VPVV) MarshalText() ([]byte, error)         { return callT("Map_VPVV", r) }

type Map_VPVP map[string]int

func (r Map_VPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPVP", r, c, b)
}
func (r *Map_VPVP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPVP", r, b) }
func (r Map_VPVP) MarshalJSON() ([]byte, error)         { return callJ("Map_VPVP", r) }
func (r *Map_VPVP) MarshalText() ([]byte, error)        { return callT("Map_VPVP", r) }

type Map_VPPN map[string]int

func (r Map_VPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPPN", r, c, b)
}
func (r *Map_VPPN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPPN", r, b) }
func (r *Map_VPPN) MarshalJSON() ([]byte, error)        { return callJ("Map_VPPN", r) }

type Map_VPPV map[string]int

func (r Map_VPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPPV", r, c, b)
}
func (r *Map_VPPV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPPV", r, b) }
func (r *Map_VPPV) MarshalJSON() ([]byte, error)        { return callJ("Map_VPPV", r) }
func (r Map_VPPV) MarshalText() ([]byte, error)         { return callT("Map_VPPV", r) }

type Map_VPPP map[string]int

func (r Map_VPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_VPPP", r, c, b)
}
func (r *Map_VPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_VPPP", r, b) }
func (r *Map_VPPP) MarshalJSON() ([]byte, error)        { return callJ("Map_VPPP", r) }
func (r *Map_VPPP) MarshalText() ([]byte, error)        { return callT("Map_VPPP", r) }

type Map_PNNN map[string]int

func (r *Map_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNNN", r, c, b)
}

type Map_PNNV map[string]int

func (r *Map_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNNV", r, c, b)
}
func (r Map_PNNV) MarshalText() ([]byte, error) { return callT("Map_PNNV", r) }

type Map_PNNP map[string]int

func (r *Map_PNNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNNP", r, c, b)
}
func (r *Map_PNNP) MarshalText() ([]byte, error) { return callT("Map_PNNP", r) }

type Map_PNVN map[string]int

func (r *Map_PNVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNVN", r, c, b)
}
func (r Map_PNVN) MarshalJSON() ([]byte, error) { return callJ("Map_PNVN", r) }

type Map_PNVV map[string]int

func (r *Map_PNVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNVV", r, c, b)
}
func (r Map_PNVV) MarshalJSON() ([]byte, error) { return callJ("Map_PNVV", r) }
func (r Map_PNVV) MarshalText() ([]byte, error) { return callT("Map_PNVV", r) }

type Map_PNVP map[string]int

func (r *Map_PNVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNVP", r, c, b)
}
func (r Map_PNVP) MarshalJSON() ([]byte, error)  { return callJ("Map_PNVP", r) }
func (r *Map_PNVP) MarshalText() ([]byte, error) { return callT("Map_PNVP", r) }

type Map_PNPN map[string]int

func (r *Map_PNPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNPN", r, c, b)
}
func (r *Map_PNPN) MarshalJSON() ([]byte, error) { return callJ("Map_PNPN", r) }

type Map_PNPV map[string]int

func (r *Map_PNPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNPV", r, c, b)
}
func (r *Map_PNPV) MarshalJSON() ([]byte, error) { return callJ("Map_PNPV", r) }
func (r Map_PNPV) MarshalText() ([]byte, error)  { return callT("Map_PNPV", r) }

type Map_PNPP map[string]int

func (r *Map_PNPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PNPP", r, c, b)
}
func (r *Map_PNPP) MarshalJSON() ([]byte, error) { return callJ("Map_PNPP", r) }
func (r *Map_PNPP) MarshalText() ([]byte, error) { return callT("Map_PNPP", r) }

type Map_PVNN map[string]int

func (r *Map_PVNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVNN", r, c, b)
}
func (r Map_PVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVNN", r, b) }

type Map_PVNV map[string]int

func (r *Map_PVNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVNV", r, c, b)
}
func (r Map_PVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVNV", r, b) }
func (r Map_PVNV) MarshalText() ([]byte, error)        { return callT("Map_PVNV", r) }

type Map_PVNP map[string]int

func (r *Map_PVNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVNP", r, c, b)
}
func (r Map_PVNP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVNP", r, b) }
func (r *Map_PVNP) MarshalText() ([]byte, error)       { return callT("Map_PVNP", r) }

type Map_PVVN map[string]int

func (r *Map_PVVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVVN", r, c, b)
}
func (r Map_PVVN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVVN", r, b) }
func (r Map_PVVN) MarshalJSON() ([]byte, error)        { return callJ("Map_PVVN", r) }

type Map_PVVV map[string]int

func (r *Map_PVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVVV", r, c, b)
}
func (r Map_PVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVVV", r, b) }
func (r Map_PVVV) MarshalJSON() ([]byte, error)        { return callJ("Map_PVVV", r) }
func (r Map_PVVV) MarshalText() ([]byte, error)        { return callT("Map_PVVV", r) }

type Map_PVVP map[string]int

func (r *Map_PVVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVVP", r, c, b)
}
func (r Map_PVVP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVVP", r, b) }
func (r Map_PVVP) MarshalJSON() ([]byte, error)        { return callJ("Map_PVVP", r) }
func (r *Map_PVVP) MarshalText() ([]byte, error)       { return callT("Map_PVVP", r) }

type Map_PVPN map[string]int

func (r *Map_PVPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVPN", r, c, b)
}
func (r Map_PVPN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVPN", r, b) }
func (r *Map_PVPN) MarshalJSON() ([]byte, error)       { return callJ("Map_PVPN", r) }

type Map_PVPV map[string]int

func (r *Map_PVPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVPV", r, c, b)
}
func (r Map_PVPV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVPV", r, b) }
func (r *Map_PVPV) MarshalJSON() ([]byte, error)       { return callJ("Map_PVPV", r) }
func (r Map_PVPV) MarshalText() ([]byte, error)        { return callT("Map_PVPV", r) }

type Map_PVPP map[string]int

func (r *Map_PVPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PVPP", r, c, b)
}
func (r Map_PVPP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PVPP", r, b) }
func (r *Map_PVPP) MarshalJSON() ([]byte, error)       { return callJ("Map_PVPP", r) }
func (r *Map_PVPP) MarshalText() ([]byte, error)       { return callT("Map_PVPP", r) }

type Map_PPNN map[string]int

func (r *Map_PPNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPNN", r, c, b)
}
func (r *Map_PPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPNN", r, b) }

type Map_PPNV map[string]int

func (r *Map_PPNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPNV", r, c, b)
}
func (r *Map_PPNV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPNV", r, b) }
func (r Map_PPNV) MarshalText() ([]byte, error)         { return callT("Map_PPNV", r) }

type Map_PPNP map[string]int

func (r *Map_PPNP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPNP", r, c, b)
}
func (r *Map_PPNP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPNP", r, b) }
func (r *Map_PPNP) MarshalText() ([]byte, error)        { return callT("Map_PPNP", r) }

type Map_PPVN map[string]int

func (r *Map_PPVN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPVN", r, c, b)
}
func (r *Map_PPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPVN", r, b) }
func (r Map_PPVN) MarshalJSON() ([]byte, error)         { return callJ("Map_PPVN", r) }

type Map_PPVV map[string]int

func (r *Map_PPVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPVV", r, c, b)
}
func (r *Map_PPVV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPVV", r, b) }
func (r Map_PPVV) MarshalJSON() ([]byte, error)         { return callJ("Map_PPVV", r) }
func (r Map_PPVV) MarshalText() ([]byte, error)         { return callT("Map_PPVV", r) }

type Map_PPVP map[string]int

func (r *Map_PPVP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPVP", r, c, b)
}
func (r *Map_PPVP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPVP", r, b) }
func (r Map_PPVP) MarshalJSON() ([]byte, error)         { return callJ("Map_PPVP", r) }
func (r *Map_PPVP) MarshalText() ([]byte, error)        { return callT("Map_PPVP", r) }

type Map_PPPN map[string]int

func (r *Map_PPPN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPPN", r, c, b)
}
func (r *Map_PPPN) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPPN", r, b) }
func (r *Map_PPPN) MarshalJSON() ([]byte, error)        { return callJ("Map_PPPN", r) }

type Map_PPPV map[string]int

func (r *Map_PPPV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPPV", r, c, b)
}
func (r *Map_PPPV) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPPV", r, b) }
func (r *Map_PPPV) MarshalJSON() ([]byte, error)        { return callJ("Map_PPPV", r) }
func (r Map_PPPV) MarshalText() ([]byte, error)         { return callT("Map_PPPV", r) }

type Map_PPPP map[string]int

func (r *Map_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Map_PPPP", r, c, b)
}
func (r *Map_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Map_PPPP", r, b) }
func (r *Map_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Map_PPPP", r) }
func (r *Map_PPPP) MarshalText() ([]byte, error)        { return callT("Map_PPPP", r) }

type Str_NNNN string
type Str_VNNN string

func (r Str_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Str_VNNN", r, c, b)
}

type Str_PNNN string

func (r *Str_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Str_PNNN", r, c, b)
}

type Str_NVNN string

func (r Str_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Str_NVNN", r, b) }

type Str_NPNN string

func (r *Str_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Str_NPNN", r, b) }

type Str_NNVN string

func (r Str_NNVN) MarshalJSON() ([]byte, error) { return callJ("Str_NNVN", r) }

type Str_NNPN string

func (r *Str_NNPN) MarshalJSON() ([]byte, error) { return callJ("Str_NNPN", r) }

type Str_NNNV string

func (r Str_NNNV) MarshalText() ([]byte, error) { return callT("Str_NNNV", r) }

type Str_NNNP string

func (r *Str_NNNP) MarshalText() ([]byte, error) { return callT("Str_NNNP", r) }

type Str_NVNV string

func (r Str_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Str_NVNV", r, b) }
func (r Str_NVNV) MarshalText() ([]byte, error)        { return callT("Str_NVNV", r) }

type Str_NNVV string

func (r Str_NNVV) MarshalJSON() ([]byte, error) { return callJ("Str_NNVV", r) }
func (r Str_NNVV) MarshalText() ([]byte, error) { return callT("Str_NNVV", r) }

type Str_VVVV string

func (r Str_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Str_VVVV", r, c, b)
}
func (r Str_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Str_VVVV", r, b) }
func (r Str_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Str_VVVV", r) }
func (r Str_VVVV) MarshalText() ([]byte, error)        { return callT("Str_VVVV", r) }

type Str_PPPP string

func (r *Str_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Str_PPPP", r, c, b)
}
func (r *Str_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Str_PPPP", r, b) }
func (r *Str_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Str_PPPP", r) }
func (r *Str_PPPP) MarshalText() ([]byte, error)        { return callT("Str_PPPP", r) }

type Str_NNPV string

func (r *Str_NNPV) MarshalJSON() ([]byte, error) { return callJ("Str_NNPV", r) }
func (r Str_NNPV) MarshalText() ([]byte, error)  { return callT("Str_NNPV", r) }

type Str_NPVN string

func (r *Str_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Str_NPVN", r, b) }
func (r Str_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Str_NPVN", r) }

type Str_NNVP string

func (r Str_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Str_NNVP", r) }
func (r *Str_NNVP) MarshalText() ([]byte, error) { return callT("Str_NNVP", r) }

type Str_PNNV string

func (r *Str_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Str_PNNV", r, c, b)
}
func (r Str_PNNV) MarshalText() ([]byte, error) { return callT("Str_PNNV", r) }

type U8_NNNN uint8
type U8_VNNN uint8

func (r U8_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("U8_VNNN", r, c, b)
}

type U8_PNNN uint8

func (r *U8_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("U8_PNNN", r, c, b)
}

type U8_NVNN uint8

func (r U8_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("U8_NVNN", r, b) }

type U8_NPNN uint8

func (r *U8_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("U8_NPNN", r, b) }

type U8_NNVN uint8

func (r U8_NNVN) MarshalJSON() ([]byte, error) { return callJ("U8_NNVN", r) }

type U8_NNPN uint8

func (r *U8_NNPN) MarshalJSON() ([]byte, error) { return callJ("U8_NNPN", r) }

type U8_NNNV uint8

func (r U8_NNNV) MarshalText() ([]byte, error) { return callT("U8_NNNV", r) }

type U8_NNNP uint8

func (r *U8_NNNP) MarshalText() ([]byte, error) { return callT("U8_NNNP", r) }

type U8_NVNV uint8

func (r U8_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("U8_NVNV", r, b) }
func (r U8_NVNV) MarshalText() ([]byte, error)        { return callT("U8_NVNV", r) }

type U8_NNVV uint8

func (r U8_NNVV) MarshalJSON() ([]byte, error) { return callJ("U8_NNVV", r) }
func (r U8_NNVV) MarshalText() ([]byte, error) { return callT("U8_NNVV", r) }

type U8_VVVV uint8

func (r U8_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("U8_VVVV", r, c, b)
}
func (r U8_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("U8_VVVV", r, b) }
func (r U8_VVVV) MarshalJSON() ([]byte, error)        { return callJ("U8_VVVV", r) }
func (r U8_VVVV) MarshalText() ([]byte, error)        { return callT("U8_VVVV", r) }

type U8_PPPP uint8

func (r *U8_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("U8_PPPP", r, c, b)
}
func (r *U8_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("U8_PPPP", r, b) }
func (r *U8_PPPP) MarshalJSON() ([]byte, error)        { return callJ("U8_PPPP", r) }
func (r *U8_PPPP) MarshalText() ([]byte, error)        { return callT("U8_PPPP", r) }

type U8_NNPV uint8

func (r *U8_NNPV) MarshalJSON() ([]byte, error) { return callJ("U8_NNPV", r) }
func (r U8_NNPV) MarshalText() ([]byte, error)  { return callT("U8_NNPV", r) }

type U8_NPVN uint8

func (r *U8_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("U8_NPVN", r, b) }
func (r U8_NPVN) MarshalJSON() ([]byte, error)         { return callJ("U8_NPVN", r) }

type U8_NNVP uint8

func (r U8_NNVP) MarshalJSON() ([]byte, error)  { return callJ("U8_NNVP", r) }
func (r *U8_NNVP) MarshalText() ([]byte, error) { return callT("U8_NNVP", r) }

type U8_PNNV uint8

func (r *U8_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("U8_PNNV", r, c, b)
}
func (r U8_PNNV) MarshalText() ([]byte, error) { return callT("U8_PNNV", r) }

type Sl_NNNN []int
type Sl_VNNN []int

func (r Sl_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Sl_VNNN", r, c, b)
}

type Sl_PNNN []int

func (r *Sl_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Sl_PNNN", r, c, b)
}

type Sl_NVNN []int

func (r Sl_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Sl_NVNN", r, b) }

type Sl_NPNN []int

func (r *Sl_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Sl_NPNN", r, b) }

type Sl_NNVN []int

func (r Sl_NNVN) MarshalJSON() ([]byte, error) { return callJ("Sl_NNVN", r) }

type Sl_NNPN []int

func (r *Sl_NNPN) MarshalJSON() ([]byte, error) { return callJ("Sl_NNPN", r) }

type Sl_NNNV []int

func (r Sl_NNNV) MarshalText() ([]byte, error) { return callT("Sl_NNNV", r) }

type Sl_NNNP []int

func (r *Sl_NNNP) MarshalText() ([]byte, error) { return callT("Sl_NNNP", r) }

type Sl_NVNV []int

func (r Sl_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Sl_NVNV", r, b) }
func (r Sl_NVNV) MarshalText() ([]byte, error)        { return callT("Sl_NVNV", r) }

type Sl_NNVV []int

func (r Sl_NNVV) MarshalJSON() ([]byte, error) { return callJ("Sl_NNVV", r) }
func (r Sl_NNVV) MarshalText() ([]byte, error) { return callT("Sl_NNVV", r) }

type Sl_VVVV []int

func (r Sl_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Sl_VVVV", r, c, b)
}
func (r Sl_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Sl_VVVV", r, b) }
func (r Sl_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Sl_VVVV", r) }
func (r Sl_VVVV) MarshalText() ([]byte, error)        { return callT("Sl_VVVV", r) }

type Sl_PPPP []int

func (r *Sl_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Sl_PPPP", r, c, b)
}
func (r *Sl_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Sl_PPPP", r, b) }
func (r *Sl_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Sl_PPPP", r) }
func (r *Sl_PPPP) MarshalText() ([]byte, error)        { return callT("Sl_PPPP", r) }

type Sl_NNPV []int

func (r *Sl_NNPV) MarshalJSON() ([]byte, error) { return callJ("Sl_NNPV", r) }
func (r Sl_NNPV) MarshalText() ([]byte, error)  { return callT("Sl_NNPV", r) }

type Sl_NPVN []int

func (r *Sl_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Sl_NPVN", r, b) }
func (r Sl_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Sl_NPVN", r) }

type Sl_NNVP []int

func (r Sl_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Sl_NNVP", r) }
func (r *Sl_NNVP) MarshalText() ([]byte, error) { return callT("Sl_NNVP", r) }

type Sl_PNNV []int

func (r *Sl_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Sl_PNNV", r, c, b)
}
func (r Sl_PNNV) MarshalText() ([]byte, error) { return callT("Sl_PNNV", r) }

type Arr1p_NNNN [1]*int
type Arr1p_VNNN [1]*int

func (r Arr1p_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr1p_VNNN", r, c, b)
}

type Arr1p_PNNN [1]*int

func (r *Arr1p_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr1p_PNNN", r, c, b)
}

type Arr1p_NVNN [1]*int

func (r Arr1p_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Arr1p_NVNN", r, b) }

type Arr1p_NPNN [1]*int

func (r *Arr1p_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Arr1p_NPNN", r, b) }

type Arr1p_NNVN [1]*int

func (r Arr1p_NNVN) MarshalJSON() ([]byte, error) { return callJ("Arr1p_NNVN", r) }

type Arr1p_NNPN [1]*int

func (r *Arr1p_NNPN) MarshalJSON() ([]byte, error) { return callJ("Arr1p_NNPN", r) }

type Arr1p_NNNV [1]*int

func (r Arr1p_NNNV) MarshalText() ([]byte, error) { return callT("Arr1p_NNNV", r) }

type Arr1p_NNNP [1]*int

func (r *Arr1p_NNNP) MarshalText() ([]byte, error) { return callT("Arr1p_NNNP", r) }

type Arr1p_NVNV [1]*int

func (r Arr1p_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Arr1p_NVNV", r, b) }
func (r Arr1p_NVNV) MarshalText() ([]byte, error)        { return callT("Arr1p_NVNV", r) }

type Arr1p_NNVV [1]*int

func (r Arr1p_NNVV) MarshalJSON() ([]byte, error) { return callJ("Arr1p_NNVV", r) }
func (r Arr1p_NNVV) MarshalText() ([]byte, error) { return callT("Arr1p_NNVV", r) }

type Arr1p_VVVV [1]*int

func (r Arr1p_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr1p_VVVV", r, c, b)
}
func (r Arr1p_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Arr1p_VVVV", r, b) }
func (r Arr1p_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Arr1p_VVVV", r) }
func (r Arr1p_VVVV) MarshalText() ([]byte, error)        { return callT("Arr1p_VVVV", r) }

type Arr1p_PPPP [1]*int

func (r *Arr1p_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr1p_PPPP", r, c, b)
}
func (r *Arr1p_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Arr1p_PPPP", r, b) }
func (r *Arr1p_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Arr1p_PPPP", r) }
func (r *Arr1p_PPPP) MarshalText() ([]byte, error)        { return callT("Arr1p_PPPP", r) }

type Arr1p_NNPV [1]*int

func (r *Arr1p_NNPV) MarshalJSON() ([]byte, error) { return callJ("Arr1p_NNPV", r) }
func (r Arr1p_NNPV) MarshalText() ([]byte, error)  { return callT("Arr1p_NNPV", r) }

type Arr1p_NPVN [1]*int

func (r *Arr1p_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Arr1p_NPVN", r, b) }
func (r Arr1p_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Arr1p_NPVN", r) }

type Arr1p_NNVP [1]*int

func (r Arr1p_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Arr1p_NNVP", r) }
func (r *Arr1p_NNVP) MarshalText() ([]byte, error) { return callT("Arr1p_NNVP", r) }

type Arr1p_PNNV [1]*int

func (r *Arr1p_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr1p_PNNV", r, c, b)
}
func (r Arr1p_PNNV) MarshalText() ([]byte, error) { return callT("Arr1p_PNNV", r) }

type Fn_NNNN func() int

func (r Fn_NNNN) Kit() int { return r() }

type Fn_VNNN func() int

func (r Fn_VNNN) Kit() int { return r() }
func (r Fn_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Fn_VNNN", r, c, b)
}

type Fn_PNNN func() int

func (r Fn_PNNN) Kit() int { return r() }
func (r *Fn_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Fn_PNNN", r, c, b)
}

type Fn_NVNN func() int

func (r Fn_NVNN) Kit() int                            { return r() }
func (r Fn_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Fn_NVNN", r, b) }

type Fn_NPNN func() int

func (r Fn_NPNN) Kit() int                             { return r() }
func (r *Fn_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Fn_NPNN", r, b) }

type Fn_NNVN func() int

func (r Fn_NNVN) Kit() int                     { return r() }
func (r Fn_NNVN) MarshalJSON() ([]byte, error) { return callJ("Fn_NNVN", r) }

type Fn_NNPN func() int

func (r Fn_NNPN) Kit() int                      { return r() }
func (r *Fn_NNPN) MarshalJSON() ([]byte, error) { return callJ("Fn_NNPN", r) }

type Fn_NNNV func() int

func (r Fn_NNNV) Kit() int                     { return r() }
func (r Fn_NNNV) MarshalText() ([]byte, error) { return callT("Fn_NNNV", r) }

type Fn_NNNP func() int

func (r Fn_NNNP) Kit() int                      { return r() }
func (r *Fn_NNNP) MarshalText() ([]byte, error) { return callT("Fn_NNNP", r) }

type Fn_NVNV func() int

func (r Fn_NVNV) Kit() int                            { return r() }
func (r Fn_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Fn_NVNV", r, b) }
func (r Fn_NVNV) MarshalText() ([]byte, error)        { return callT("Fn_NVNV", r) }

type Fn_NNVV func() int

func (r Fn_NNVV) Kit() int                     { return r() }
func (r Fn_NNVV) MarshalJSON() ([]byte, error) { return callJ("Fn_NNVV", r) }
func (r Fn_NNVV) MarshalText() ([]byte, error) { return callT("Fn_NNVV", r) }

type Fn_VVVV func() int

func (r Fn_VVVV) Kit() int { return r() }
func (r Fn_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Fn_VVVV", r, c, b)
}
func (r Fn_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Fn_VVVV", r, b) }
func (r Fn_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Fn_VVVV", r) }
func (r Fn_VVVV) MarshalText() ([]byte, error)        { return callT("Fn_VVVV", r) }

type Fn_PPPP func() int

func (r Fn_PPPP) Kit() int { return r() }
func (r *Fn_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Fn_PPPP", r, c, b)
}
func (r *Fn_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Fn_PPPP", r, b) }
func (r *Fn_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Fn_PPPP", r) }
func (r *Fn_PPPP) MarshalText() ([]byte, error)        { return callT("Fn_PPPP", r) }

type Fn_NNPV func() int

func (r Fn_NNPV) Kit() int                      { return r() }
func (r *Fn_NNPV) MarshalJSON() ([]byte, error) { return callJ("Fn_NNPV", r) }
func (r Fn_NNPV) MarshalText() ([]byte, error)  { return callT("Fn_NNPV", r) }

type Fn_NPVN func() int

func (r Fn_NPVN) Kit() int                             { return r() }
func (r *Fn_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Fn_NPVN", r, b) }
func (r Fn_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Fn_NPVN", r) }

type Fn_NNVP func() int

func (r Fn_NNVP) Kit() int                      { return r() }
func (r Fn_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Fn_NNVP", r) }
func (r *Fn_NNVP) MarshalText() ([]byte, error) { return callT("Fn_NNVP", r) }

type Fn_PNNV func() int

func (r Fn_PNNV) Kit() int { return r() }
func (r *Fn_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Fn_PNNV", r, c, b)
}
func (r Fn_PNNV) MarshalText() ([]byte, error) { return callT("Fn_PNNV", r) }

type St0_NNNN struct{}
type St0_VNNN struct{}

func (r St0_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St0_VNNN", r, c, b)
}

type St0_PNNN struct{}

func (r *St0_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St0_PNNN", r, c, b)
}

type St0_NVNN struct{}

func (r St0_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("St0_NVNN", r, b) }

type St0_NPNN struct{}

func (r *St0_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("St0_NPNN", r, b) }

type St0_NNVN struct{}

func (r St0_NNVN) MarshalJSON() ([]byte, error) { return callJ("St0_NNVN", r) }

type St0_NNPN struct{}

func (r *St0_NNPN) MarshalJSON() ([]byte, error) { return callJ("St0_NNPN", r) }

type St0_NNNV struct{}

func (r St0_NNNV) MarshalText() ([]byte, error) { return callT("St0_NNNV", r) }

type St0_NNNP struct{}

func (r *St0_NNNP) MarshalText() ([]byte, error) { return callT("St0_NNNP", r) }

type St0_NVNV struct{}

func (r St0_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("St0_NVNV", r, b) }
func (r St0_NVNV) MarshalText() ([]byte, error)        { return callT("St0_NVNV", r) }

type St0_NNVV struct{}

func (r St0_NNVV) MarshalJSON() ([]byte, error) { return callJ("St0_NNVV", r) }
func (r St0_NNVV) MarshalText() ([]byte, error) { return callT("St0_NNVV", r) }

type St0_VVVV struct{}

func (r St0_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St0_VVVV", r, c, b)
}
func (r St0_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("St0_VVVV", r, b) }
func (r St0_VVVV) MarshalJSON() ([]byte, error)        { return callJ("St0_VVVV", r) }
func (r St0_VVVV) MarshalText() ([]byte, error)        { return callT("St0_VVVV", r) }

type St0_PPPP struct{}

func (r *St0_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St0_PPPP", r, c, b)
}
func (r *St0_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("St0_PPPP", r, b) }
func (r *St0_PPPP) MarshalJSON() ([]byte, error)        { return callJ("St0_PPPP", r) }
func (r *St0_PPPP) MarshalText() ([]byte, error)        { return callT("St0_PPPP", r) }

type St0_NNPV struct{}

func (r *St0_NNPV) MarshalJSON() ([]byte, error) { return callJ("St0_NNPV", r) }
func (r St0_NNPV) MarshalText() ([]byte, error)  { return callT("St0_NNPV", r) }

type St0_NPVN struct{}

func (r *St0_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("St0_NPVN", r, b) }
func (r St0_NPVN) MarshalJSON() ([]byte, error)         { return callJ("St0_NPVN", r) }

type St0_NNVP struct{}

func (r St0_NNVP) MarshalJSON() ([]byte, error)  { return callJ("St0_NNVP", r) }
func (r *St0_NNVP) MarshalText() ([]byte, error) { return callT("St0_NNVP", r) }

type St0_PNNV struct{}

func (r *St0_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("St0_PNNV", r, c, b)
}
func (r St0_PNNV) MarshalText() ([]byte, error) { return callT("St0_PNNV", r) }

type F64_NNNN float64
type F64_VNNN float64

func (r F64_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("F64_VNNN", r, c, b)
}

type F64_PNNN float64

func (r *F64_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("F64_PNNN", r, c, b)
}

type F64_NVNN float64

func (r F64_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("F64_NVNN", r, b) }

type F64_NPNN float64

func (r *F64_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("F64_NPNN", r, b) }

type F64_NNVN float64

func (r F64_NNVN) MarshalJSON() ([]byte, error) { return callJ("F64_NNVN", r) }

type F64_NNPN float64

func (r *F64_NNPN) MarshalJSON() ([]byte, error) { return callJ("F64_NNPN", r) }

type F64_NNNV float64

func (r F64_NNNV) MarshalText() ([]byte, error) { return callT("F64_NNNV", r) }

type F64_NNNP float64

func (r *F64_NNNP) MarshalText() ([]byte, error) { return callT("F64_NNNP", r) }

type F64_NVNV float64

func (r F64_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("F64_NVNV", r, b) }
func (r F64_NVNV) MarshalText() ([]byte, error)        { return callT("F64_NVNV", r) }

type F64_NNVV float64

func (r F64_NNVV) MarshalJSON() ([]byte, error) { return callJ("F64_NNVV", r) }
func (r F64_NNVV) MarshalText() ([]byte, error) { return callT("F64_NNVV", r) }

type F64_VVVV float64

func (r F64_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("F64_VVVV", r, c, b)
}
func (r F64_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("F64_VVVV", r, b) }
func (r F64_VVVV) MarshalJSON() ([]byte, error)        { return callJ("F64_VVVV", r) }
func (r F64_VVVV) MarshalText() ([]byte, error)        { return callT("F64_VVVV", r) }

type F64_PPPP float64

func (r *F64_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("F64_PPPP", r, c, b)
}
func (r *F64_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("F64_PPPP", r, b) }
func (r *F64_PPPP) MarshalJSON() ([]byte, error)        { return callJ("F64_PPPP", r) }
func (r *F64_PPPP) MarshalText() ([]byte, error)        { return callT("F64_PPPP", r) }

type F64_NNPV float64

func (r *F64_NNPV) MarshalJSON() ([]byte, error) { return callJ("F64_NNPV", r) }
func (r F64_NNPV) MarshalText() ([]byte, error)  { return callT("F64_NNPV", r) }

type F64_NPVN float64

func (r *F64_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("F64_NPVN", r, b) }
func (r F64_NPVN) MarshalJSON() ([]byte, error)         { return callJ("F64_NPVN", r) }

type F64_NNVP float64

func (r F64_NNVP) MarshalJSON() ([]byte, error)  { return callJ("F64_NNVP", r) }
func (r *F64_NNVP) MarshalText() ([]byte, error) { return callT("F64_NNVP", r) }

type F64_PNNV float64

func (r *F64_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("F64_PNNV", r, c, b)
}
func (r F64_PNNV) MarshalText() ([]byte, error) { return callT("F64_PNNV", r) }

type Bool_NNNN bool
type Bool_VNNN bool

func (r Bool_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Bool_VNNN", r, c, b)
}

type Bool_PNNN bool

func (r *Bool_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Bool_PNNN", r, c, b)
}

type Bool_NVNN bool

func (r Bool_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Bool_NVNN", r, b) }

type Bool_NPNN bool

func (r *Bool_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Bool_NPNN", r, b) }

type Bool_NNVN bool

func (r Bool_NNVN) MarshalJSON() ([]byte, error) { return callJ("Bool_NNVN", r) }

type Bool_NNPN bool

func (r *Bool_NNPN) MarshalJSON() ([]byte, error) { return callJ("Bool_NNPN", r) }

type Bool_NNNV bool

func (r Bool_NNNV) MarshalText() ([]byte, error) { return callT("Bool_NNNV", r) }

type Bool_NNNP bool

func (r *Bool_NNNP) MarshalText() ([]byte, error) { return callT("Bool_NNNP", r) }

type Bool_NVNV bool

func (r Bool_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Bool_NVNV", r, b) }
func (r Bool_NVNV) MarshalText() ([]byte, error)        { return callT("Bool_NVNV", r) }

type Bool_NNVV bool

func (r Bool_NNVV) MarshalJSON() ([]byte, error) { return callJ("Bool_NNVV", r) }
func (r Bool_NNVV) MarshalText() ([]byte, error) { return callT("Bool_NNVV", r) }

type Bool_VVVV bool

func (r Bool_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Bool_VVVV", r, c, b)
}
func (r Bool_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Bool_VVVV", r, b) }
func (r Bool_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Bool_VVVV", r) }
func (r Bool_VVVV) MarshalText() ([]byte, error)        { return callT("Bool_VVVV", r) }

type Bool_PPPP bool

func (r *Bool_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Bool_PPPP", r, c, b)
}
func (r *Bool_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Bool_PPPP", r, b) }
func (r *Bool_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Bool_PPPP", r) }
func (r *Bool_PPPP) MarshalText() ([]byte, error)        { return callT("Bool_PPPP", r) }

type Bool_NNPV bool

func (r *Bool_NNPV) MarshalJSON() ([]byte, error) { return callJ("Bool_NNPV", r) }
func (r Bool_NNPV) MarshalText() ([]byte, error)  { return callT("Bool_NNPV", r) }

type Bool_NPVN bool

func (r *Bool_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Bool_NPVN", r, b) }
func (r Bool_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Bool_NPVN", r) }

type Bool_NNVP bool

func (r Bool_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Bool_NNVP", r) }
func (r *Bool_NNVP) MarshalText() ([]byte, error) { return callT("Bool_NNVP", r) }

type Bool_PNNV bool

func (r *Bool_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Bool_PNNV", r, c, b)
}
func (r Bool_PNNV) MarshalText() ([]byte, error) { return callT("Bool_PNNV", r) }

type Arr2_NNNN [2]int16
type Arr2_VNNN [2]int16

func (r Arr2_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr2_VNNN", r, c, b)
}

type Arr2_PNNN [2]int16

func (r *Arr2_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr2_PNNN", r, c, b)
}

type Arr2_NVNN [2]int16

func (r Arr2_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Arr2_NVNN", r, b) }

type Arr2_NPNN [2]int16

func (r *Arr2_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Arr2_NPNN", r, b) }

type Arr2_NNVN [2]int16

func (r Arr2_NNVN) MarshalJSON() ([]byte, error) { return callJ("Arr2_NNVN", r) }

type Arr2_NNPN [2]int16

func (r *Arr2_NNPN) MarshalJSON() ([]byte, error) { return callJ("Arr2_NNPN", r) }

type Arr2_NNNV [2]int16

func (r Arr2_NNNV) MarshalText() ([]byte, error) { return callT("Arr2_NNNV", r) }

type Arr2_NNNP [2]int16

func (r *Arr2_NNNP) MarshalText() ([]byte, error) { return callT("Arr2_NNNP", r) }

type Arr2_NVNV [2]int16

func (r Arr2_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Arr2_NVNV", r, b) }
func (r Arr2_NVNV) MarshalText() ([]byte, error)        { return callT("Arr2_NVNV", r) }

type Arr2_NNVV [2]int16

func (r Arr2_NNVV) MarshalJSON() ([]byte, error) { return callJ("Arr2_NNVV", r) }
func (r Arr2_NNVV) MarshalText() ([]byte, error) { return callT("Arr2_NNVV", r) }

type Arr2_VVVV [2]int16

func (r Arr2_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr2_VVVV", r, c, b)
}
func (r Arr2_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Arr2_VVVV", r, b) }
func (r Arr2_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Arr2_VVVV", r) }
func (r Arr2_VVVV) MarshalText() ([]byte, error)        { return callT("Arr2_VVVV", r) }

type Arr2_PPPP [2]int16

func (r *Arr2_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr2_PPPP", r, c, b)
}
func (r *Arr2_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Arr2_PPPP", r, b) }
func (r *Arr2_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Arr2_PPPP", r) }
func (r *Arr2_PPPP) MarshalText() ([]byte, error)        { return callT("Arr2_PPPP", r) }

type Arr2_NNPV [2]int16

func (r *Arr2_NNPV) MarshalJSON() ([]byte, error) { return callJ("Arr2_NNPV", r) }
func (r Arr2_NNPV) MarshalText() ([]byte, error)  { return callT("Arr2_NNPV", r) }

type Arr2_NPVN [2]int16

func (r *Arr2_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Arr2_NPVN", r, b) }
func (r Arr2_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Arr2_NPVN", r) }

type Arr2_NNVP [2]int16

func (r Arr2_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Arr2_NNVP", r) }
func (r *Arr2_NNVP) MarshalText() ([]byte, error) { return callT("Arr2_NNVP", r) }

type Arr2_PNNV [2]int16

func (r *Arr2_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Arr2_PNNV", r, c, b)
}
func (r Arr2_PNNV) MarshalText() ([]byte, error) { return callT("Arr2_PNNV", r) }

type Big_NNNN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}
type Big_VNNN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_VNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Big_VNNN", r, c, b)
}

type Big_PNNN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_PNNN) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Big_PNNN", r, c, b)
}

type Big_NVNN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_NVNN) AppendJSON(b []byte) ([]byte, error) { return callA("Big_NVNN", r, b) }

type Big_NPNN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_NPNN) AppendJSON(b []byte) ([]byte, error) { return callA("Big_NPNN", r, b) }

type Big_NNVN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_NNVN) MarshalJSON() ([]byte, error) { return callJ("Big_NNVN", r) }

type Big_NNPN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_NNPN) MarshalJSON() ([]byte, error) { return callJ("Big_NNPN", r) }

type Big_NNNV struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_NNNV) MarshalText() ([]byte, error) { return callT("Big_NNNV", r) }

type Big_NNNP struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_NNNP) MarshalText() ([]byte, error) { return callT("Big_NNNP", r) }

type Big_NVNV struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_NVNV) AppendJSON(b []byte) ([]byte, error) { return callA("Big_NVNV", r, b) }
func (r Big_NVNV) MarshalText() ([]byte, error)        { return callT("Big_NVNV", r) }

type Big_NNVV struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_NNVV) MarshalJSON() ([]byte, error) { return callJ("Big_NNVV", r) }
func (r Big_NNVV) MarshalText() ([]byte, error) { return callT("Big_NNVV", r) }

type Big_VVVV struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_VVVV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Big_VVVV", r, c, b)
}
func (r Big_VVVV) AppendJSON(b []byte) ([]byte, error) { return callA("Big_VVVV", r, b) }
func (r Big_VVVV) MarshalJSON() ([]byte, error)        { return callJ("Big_VVVV", r) }
func (r Big_VVVV) MarshalText() ([]byte, error)        { return callT("Big_VVVV", r) }

type Big_PPPP struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_PPPP) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Big_PPPP", r, c, b)
}
func (r *Big_PPPP) AppendJSON(b []byte) ([]byte, error) { return callA("Big_PPPP", r, b) }
func (r *Big_PPPP) MarshalJSON() ([]byte, error)        { return callJ("Big_PPPP", r) }
func (r *Big_PPPP) MarshalText() ([]byte, error)        { return callT("Big_PPPP", r) }

type Big_NNPV struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_NNPV) MarshalJSON() ([]byte, error) { return callJ("Big_NNPV", r) }
func (r Big_NNPV) MarshalText() ([]byte, error)  { return callT("Big_NNPV", r) }

type Big_NPVN struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_NPVN) AppendJSON(b []byte) ([]byte, error) { return callA("Big_NPVN", r, b) }
func (r Big_NPVN) MarshalJSON() ([]byte, error)         { return callJ("Big_NPVN", r) }

type Big_NNVP struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r Big_NNVP) MarshalJSON() ([]byte, error)  { return callJ("Big_NNVP", r) }
func (r *Big_NNVP) MarshalText() ([]byte, error) { return callT("Big_NNVP", r) }

type Big_PNNV struct {
	A, B, C, D, E int64
	S             string
	P             *int
}

func (r *Big_PNNV) AppendJSONContext(c context.Context, b []byte) ([]byte, error) {
	return callC("Big_PNNV", r, c, b)
}
func (r Big_PNNV) MarshalText() ([]byte, error) { return callT("Big_PNNV", r) }

// Types are all the generated types.
var Types = []Info{
	{"Int_NNNN", reflect.TypeOf((*Int_NNNN)(nil)).Elem(), "Int", "NNNN"},
	{"Int_NNNV", reflect.TypeOf((*Int_NNNV)(nil)).Elem(), "Int", "NNNV"},
	{"Int_NNNP", reflect.TypeOf((*Int_NNNP)(nil)).Elem(), "Int", "NNNP"},
	{"Int_NNVN", reflect.TypeOf((*Int_NNVN)(nil)).Elem(), "Int", "NNVN"},
	{"Int_NNVV", reflect.TypeOf((*Int_NNVV)(nil)).Elem(), "Int", "NNVV"},
	{"Int_NNVP", reflect.TypeOf((*Int_NNVP)(nil)).Elem(), "Int", "NNVP"},
	{"Int_NNPN", reflect.TypeOf((*Int_NNPN)(nil)).Elem(), "Int", "NNPN"},
	{"Int_NNPV", reflect.TypeOf((*Int_NNPV)(nil)).Elem(), "Int", "NNPV"},
	{"Int_NNPP", reflect.TypeOf((*Int_NNPP)(nil)).Elem(), "Int", "NNPP"},
	{"Int_NVNN", reflect.TypeOf((*Int_NVNN)(nil)).Elem(), "Int", "NVNN"},
	{"Int_NVNV", reflect.TypeOf((*Int_NVNV)(nil)).Elem(), "Int", "NVNV"},
	{"Int_NVNP", reflect.TypeOf((*Int_NVNP)(nil)).Elem(), "Int", "NVNP"},
	{"Int_NVVN", reflect.TypeOf((*Int_NVVN)(nil)).Elem(), "Int", "NVVN"},
	{"Int_NVVV", reflect.TypeOf((*Int_NVVV)(nil)).Elem(), "Int", "NVVV"},
	{"Int_NVVP", reflect.TypeOf((*Int_NVVP)(nil)).Elem(), "Int", "NVVP"},
	{"Int_NVPN", reflect.TypeOf((*Int_NVPN)(nil)).Elem(), "Int", "NVPN"},
	{"Int_NVPV", reflect.TypeOf((*Int_NVPV)(nil)).Elem(), "Int", "NVPV"},
	{"Int_NVPP", reflect.TypeOf((*Int_NVPP)(nil)).Elem(), "Int", "NVPP"},
	{"Int_NPNN", reflect.TypeOf((*Int_NPNN)(nil)).Elem(), "Int", "NPNN"},
	{"Int_NPNV", reflect.TypeOf((*Int_NPNV)(nil)).Elem(), "Int", "NPNV"},
	{"Int_NPNP", reflect.TypeOf((*Int_NPNP)(nil)).Elem(), "Int", "NPNP"},
	{"Int_NPVN", reflect.TypeOf((*Int_NPVN)(nil)).Elem(), "Int", "NPVN"},
	{"Int_NPVV", reflect.TypeOf((*Int_NPVV)(nil)).Elem(), "Int", "NPVV"},
	{"Int_NPVP", reflect.TypeOf((*Int_NPVP)(nil)).Elem(), "Int", "NPVP"},
	{"Int_NPPN", reflect.TypeOf((*Int_NPPN)(nil)).Elem(), "Int", "NPPN"},
	{"Int_NPPV", reflect.TypeOf((*Int_NPPV)(nil)).Elem(), "Int", "NPPV"},
	{"Int_NPPP", reflect.TypeOf((*Int_NPPP)(nil)).Elem(), "Int", "NPPP"},
	{"Int_VNNN", reflect.TypeOf((*Int_VNNN)(nil)).Elem(), "Int", "VNNN"},
	{"Int_VNNV", reflect.TypeOf((*Int_VNNV)(nil)).Elem(), "Int", "VNNV"},
	{"Int_VNNP", reflect.TypeOf((*Int_VNNP)(nil)).Elem(), "Int", "VNNP"},
	{"Int_VNVN", reflect.TypeOf((*Int_VNVN)(nil)).Elem(), "Int", "VNVN"},
	{"Int_VNVV", reflect.TypeOf((*Int_VNVV)(nil)).Elem(), "Int", "VNVV"},
	{"Int_VNVP", reflect.TypeOf((*Int_VNVP)(nil)).Elem(), "Int", "VNVP"},
	{"Int_VNPN", reflect.TypeOf((*Int_VNPN)(nil)).Elem(), "Int", "VNPN"},
	{"Int_VNPV", reflect.TypeOf((*Int_VNPV)(nil)).Elem(), "Int", "VNPV"},
	{"Int_VNPP", reflect.TypeOf((*Int_VNPP)(nil)).Elem(), "Int", "VNPP"},
	{"Int_VVNN", reflect.TypeOf((*Int_VVNN)(nil)).Elem(), "Int", "VVNN"},
	{"Int_VVNV", reflect.TypeOf((*Int_VVNV)(nil)).Elem(), "Int", "VVNV"},
	{"Int_VVNP", reflect.TypeOf((*Int_VVNP)(nil)).Elem(), "Int", "VVNP"},
	{"Int_VVVN", reflect.TypeOf((*Int_VVVN)(nil)).Elem(), "Int", "VVVN"},
	{"Int_VVVV", reflect.TypeOf((*Int_VVVV)(nil)).Elem(), "Int", "VVVV"},
	{"Int_VVVP", reflect.TypeOf((*Int_VVVP)(nil)).Elem(), "Int", "VVVP"},
	{"Int_VVPN", reflect.TypeOf((*Int_VVPN)(nil)).Elem(), "Int", "VVPN"},
	{"Int_VVPV", reflect.TypeOf((*Int_VVPV)(nil)).Elem(), "Int", "VVPV"},
	{"Int_VVPP", reflect.TypeOf((*Int_VVPP)(nil)).Elem(), "Int", "VVPP"},
	{"Int_VPNN", reflect.TypeOf((*Int_VPNN)(nil)).Elem(), "Int", "VPNN"},
	{"Int_VPNV", reflect.TypeOf((*Int_VPNV)(nil)).Elem(), "Int", "VPNV"},
	{"Int_VPNP", reflect.TypeOf((*Int_VPNP)(nil)).Elem(), "Int", "VPNP"},
	{"Int_VPVN", reflect.TypeOf((*Int_VPVN)(nil)).Elem(), "Int", "VPVN"},
	{"Int_VPVV", reflect.TypeOf((*Int_VPVV)(nil)).Elem(), "Int", "VPVV"},
	{"Int_VPVP", reflect.TypeOf((*Int_VPVP)(nil)).Elem(), "Int", "VPVP"},
	{"Int_VPPN", reflect.TypeOf((*Int_VPPN)(nil)).Elem(), "Int", "VPPN"},
	{"Int_VPPV", reflect.TypeOf((*Int_VPPV)(nil)).Elem(), "Int", "VPPV"},
	{"Int_VPPP", reflect.TypeOf((*Int_VPPP)(nil)).Elem(), "Int", "VPPP"},
	{"Int_PNNN", reflect.TypeOf((*Int_PNNN)(nil)).Elem(), "Int", "PNNN"},
	{"Int_PNNV", reflect.TypeOf((*Int_PNNV)(nil)).Elem(), "Int", "PNNV"},
	{"Int_PNNP", reflect.TypeOf((*Int_PNNP)(nil)).Elem(), "Int", "PNNP"},
	{"Int_PNVN", reflect.TypeOf((*Int_PNVN)(nil)).Elem(), "Int", "PNVN"},
	{"Int_PNVV", reflect.TypeOf((*Int_PNVV)(nil)).Elem(), "Int", "PNVV"},
	{"Int_PNVP", reflect.TypeOf((*Int_PNVP)(nil)).Elem(), "Int", "PNVP"},
	{"Int_PNPN", reflect.TypeOf((*Int_PNPN)(nil)).Elem(), "Int", "PNPN"},
	{"Int_PNPV", reflect.TypeOf((*Int_PNPV)(nil)).Elem(), "Int", "PNPV"},
	{"Int_PNPP", reflect.TypeOf((*Int_PNPP)(nil)).Elem(), "Int", "PNPP"},
	{"Int_PVNN", reflect.TypeOf((*Int_PVNN)(nil)).Elem(), "Int", "PVNN"},
	{"Int_PVNV", reflect.TypeOf((*Int_PVNV)(nil)).Elem(), "Int", "PVNV"},
	{"Int_PVNP", reflect.TypeOf((*Int_PVNP)(nil)).Elem(), "Int", "PVNP"},
	{"Int_PVVN", reflect.TypeOf((*Int_PVVN)(nil)).Elem(), "Int", "PVVN"},
	{"Int_PVVV", reflect.TypeOf((*Int_PVVV)(nil)).Elem(), "Int", "PVVV"},
	{"Int_PVVP", reflect.TypeOf((*Int_PVVP)(nil)).Elem(), "Int", "PVVP"},
	{"Int_PVPN", reflect.TypeOf((*Int_PVPN)(nil)).Elem(), "Int", "PVPN"},
	{"Int_PVPV", reflect.TypeOf((*Int_PVPV)(nil)).Elem(), "Int", "PVPV"},
	{"Int_PVPP", reflect.TypeOf((*Int_PVPP)(nil)).Elem(), "Int", "PVPP"},
	{"Int_PPNN", reflect.TypeOf((*Int_PPNN)(nil)).Elem(), "Int", "PPNN"},
	{"Int_PPNV", reflect.TypeOf((*Int_PPNV)(nil)).Elem(), "Int", "PPNV"},
	{"Int_PPNP", reflect.TypeOf((*Int_PPNP)(nil)).Elem(), "Int", "PPNP"},
	{"Int_PPVN", reflect.TypeOf((*Int_PPVN)(nil)).Elem(), "Int", "PPVN"},
	{"Int_PPVV", reflect.TypeOf((*Int_PPVV)(nil)).Elem(), "Int", "PPVV"},
	{"Int_PPVP", reflect.TypeOf((*Int_PPVP)(nil)).Elem(), "Int", "PPVP"},
	{"Int_PPPN", reflect.TypeOf((*Int_PPPN)(nil)).Elem(), "Int", "PPPN"},
	{"Int_PPPV", reflect.TypeOf((*Int_PPPV)(nil)).Elem(), "Int", "PPPV"},
	{"Int_PPPP", reflect.TypeOf((*Int_PPPP)(nil)).Elem(), "Int", "PPPP"},
	{"St2_NNNN", reflect.TypeOf((*St2_NNNN)(nil)).Elem(), "St2", "NNNN"},
	{"St2_NNNV", reflect.TypeOf((*St2_NNNV)(nil)).Elem(), "St2", "NNNV"},
	{"St2_NNNP", reflect.TypeOf((*St2_NNNP)(nil)).Elem(), "St2", "NNNP"},
	{"St2_NNVN", reflect.TypeOf((*St2_NNVN)(nil)).Elem(), "St2", "NNVN"},
	{"St2_NNVV", reflect.TypeOf((*St2_NNVV)(nil)).Elem(), "St2", "NNVV"},
	{"St2_NNVP", reflect.TypeOf((*St2_NNVP)(nil)).Elem(), "St2", "NNVP"},
	{"St2_NNPN", reflect.TypeOf((*St2_NNPN)(nil)).Elem(), "St2", "NNPN"},
	{"St2_NNPV", reflect.TypeOf((*St2_NNPV)(nil)).Elem(), "St2", "NNPV"},
	{"St2_NNPP", reflect.TypeOf((*St2_NNPP)(nil)).Elem(), "St2", "NNPP"},
	{"St2_NVNN", reflect.TypeOf((*St2_NVNN)(nil)).Elem(), "St2", "NVNN"},
	{"St2_NVNV", reflect.TypeOf((*St2_NVNV)(nil)).Elem(), "St2", "NVNV"},
	{"St2_NVNP", reflect.TypeOf((*St2_NVNP)(nil)).Elem(), "St2", "NVNP"},
	{"St2_NVVN", reflect.TypeOf((*St2_NVVN)(nil)).Elem(), "St2", "NVVN"},
	{"St2_NVVV", reflect.TypeOf((*St2_NVVV)(nil)).Elem(), "St2", "NVVV"},
	{"St2_NVVP", reflect.TypeOf((*St2_NVVP)(nil)).Elem(), "St2", "NVVP"},
	{"St2_NVPN", reflect.TypeOf((*St2_NVPN)(nil)).Elem(), "St2", "NVPN"},
	{"St2_NVPV", reflect.TypeOf((*St2_NVPV)(nil)).Elem(), "St2", "NVPV"},
	{"St2_NVPP", reflect.TypeOf((*St2_NVPP)(nil)).Elem(), "St2", "NVPP"},
	{"St2_NPNN", reflect.TypeOf((*St2_NPNN)(nil)).Elem(), "St2", "NPNN"},
	{"St2_NPNV", reflect.TypeOf((*St2_NPNV)(nil)).Elem(), "St2", "NPNV"},
	{"St2_NPNP", reflect.TypeOf((*St2_NPNP)(nil)).Elem(), "St2", "NPNP"},
	{"St2_NPVN", reflect.TypeOf((*St2_NPVN)(nil)).Elem(), "St2", "NPVN"},
	{"St2_NPVV", reflect.TypeOf((*St2_NPVV)(nil)).Elem(), "St2", "NPVV"},
	{"St2_NPVP", reflect.TypeOf((*St2_NPVP)(nil)).Elem(), "St2", "NPVP"},
	{"St2_NPPN", reflect.TypeOf((*St2_NPPN)(nil)).Elem(), "St2", "NPPN"},
	{"St2_NPPV", reflect.TypeOf((*St2_NPPV)(nil)).Elem(), "St2", "NPPV"},
	{"St2_NPPP", reflect.TypeOf((*St2_NPPP)(nil)).Elem(), "St2", "NPPP"},
	{"St2_VNNN", reflect.TypeOf((*St2_VNNN)(nil)).Elem(), "St2", "VNNN"},
	{"St2_VNNV", reflect.TypeOf((*St2_VNNV)(nil)).Elem(), "St2", "VNNV"},
	{"St2_VNNP", reflect.TypeOf((*St2_VNNP)(nil)).Elem(), "St2", "VNNP"},
	{"St2_VNVN", reflect.TypeOf((*St2_VNVN)(nil)).Elem(), "St2", "VNVN"},
	{"St2_VNVV", reflect.TypeOf((*St2_VNVV)(nil)).Elem(), "St2", "VNVV"},
	{"St2_VNVP", reflect.TypeOf((*St2_VNVP)(nil)).Elem(), "St2", "VNVP"},
	{"St2_VNPN", reflect.TypeOf((*St2_VNPN)(nil)).Elem(), "St2", "VNPN"},
	{"St2_VNPV", reflect.TypeOf((*St2_VNPV)(nil)).Elem(), "St2", "VNPV"},
	{"St2_VNPP", reflect.TypeOf((*St2_VNPP)(nil)).Elem(), "St2", "VNPP"},
	{"St2_VVNN", reflect.TypeOf((*St2_VVNN)(nil)).Elem(), "St2", "VVNN"},
	{"St2_VVNV", reflect.TypeOf((*St2_VVNV)(nil)).Elem(), "St2", "VVNV"},
	{"St2_VVNP", reflect.TypeOf((*St2_VVNP)(nil)).Elem(), "St2", "VVNP"},
	{"St2_VVVN", reflect.TypeOf((*St2_VVVN)(nil)).Elem(), "St2", "VVVN"},
	{"St2_VVVV", reflect.TypeOf((*St2_VVVV)(nil)).Elem(), "St2", "VVVV"},
	{"St2_VVVP", reflect.TypeOf((*St2_VVVP)(nil)).Elem(), "St2", "VVVP"},
	{"St2_VVPN", reflect.TypeOf((*St2_VVPN)(nil)).Elem(), "St2", "VVPN"},
	{"St2_VVPV", reflect.TypeOf((*St2_VVPV)(nil)).Elem(), "St2", "VVPV"},
	{"St2_VVPP", reflect.TypeOf((*St2_VVPP)(nil)).Elem(), "St2", "VVPP"},
	{"St2_VPNN", reflect.TypeOf((*St2_VPNN)(nil)).Elem(), "St2", "VPNN"},
	{"St2_VPNV", reflect.TypeOf((*St2_VPNV)(nil)).Elem(), "St2", "VPNV"},
	{"St2_VPNP", reflect.TypeOf((*St2_VPNP)(nil)).Elem(), "St2", "VPNP"},
	{"St2_VPVN", reflect.TypeOf((*St2_VPVN)(nil)).Elem(), "St2", "VPVN"},
	{"St2_VPVV", reflect.TypeOf((*St2_VPVV)(nil)).Elem(), "St2", "VPVV"},
	{"St2_VPVP", reflect.TypeOf((*St2_VPVP)(nil)).Elem(), "St2", "VPVP"},
	{"St2_VPPN", reflect.TypeOf((*St2_VPPN)(nil)).Elem(), "St2", "VPPN"},
	{"St2_VPPV", reflect.TypeOf((*St2_VPPV)(nil)).Elem(), "St2", "VPPV"},
	{"St2_VPPP", reflect.TypeOf((*St2_VPPP)(nil)).Elem(), "St2", "VPPP"},
	{"St2_PNNN", reflect.TypeOf((*St2_PNNN)(nil)).Elem(), "St2", "PNNN"},
	{"St2_PNNV", reflect.TypeOf((*St2_PNNV)(nil)).Elem(), "St2", "PNNV"},
	{"St2_PNNP", reflect.TypeOf((*St2_PNNP)(nil)).Elem(), "St2", "PNNP"},
	{"St2_PNVN", reflect.TypeOf((*St2_PNVN)(nil)).Elem(), "St2", "PNVN"},
	{"St2_PNVV", reflect.TypeOf((*St2_PNVV)(nil)).Elem(), "St2", "PNVV"},
	{"St2_PNVP", reflect.TypeOf((*St2_PNVP)(nil)).Elem(), "St2", "PNVP"},
	{"St2_PNPN", reflect.TypeOf((*St2_PNPN)(nil)).Elem(), "St2", "PNPN"},
	{"St2_PNPV", reflect.TypeOf((*St2_PNPV)(nil)).Elem(), "St2", "PNPV"},
	{"St2_PNPP", reflect.TypeOf((*St2_PNPP)(nil)).Elem(), "St2", "PNPP"},
	{"St2_PVNN", reflect.TypeOf((*St2_PVNN)(nil)).Elem(), "St2", "PVNN"},
	{"St2_PVNV", reflect.TypeOf((*St2_PVNV)(nil)).Elem(), "St2", "PVNV"},
	{"St2_PVNP", reflect.TypeOf((*St2_PVNP)(nil)).Elem(), "St2", "PVNP"},
	{"St2_PVVN", reflect.TypeOf((*St2_PVVN)(nil)).Elem(), "St2", "PVVN"},
	{"St2_PVVV", reflect.TypeOf((*St2_PVVV)(nil)).Elem(), "St2", "PVVV"},
	{"St2_PVVP", reflect.TypeOf((*St2_PVVP)(nil)).Elem(), "St2", "PVVP"},
	{"St2_PVPN", reflect.TypeOf((*St2_PVPN)(nil)).Elem(), "St2", "PVPN"},
	{"St2_PVPV", reflect.TypeOf((*St2_PVPV)(nil)).Elem(), "St2", "PVPV"},
	{"St2_PVPP", reflect.TypeOf((*St2_PVPP)(nil)).Elem(), "St2", "PVPP"},
	{"St2_PPNN", reflect.TypeOf((*St2_PPNN)(nil)).Elem(), "St2", "PPNN"},
	{"St2_PPNV", reflect.TypeOf((*St2_PPNV)(nil)).Elem(), "St2", "PPNV"},
	{"St2_PPNP", reflect.TypeOf((*St2_PPNP)(nil)).Elem(), "St2", "PPNP"},
	{"St2_PPVN", reflect.TypeOf((*St2_PPVN)(nil)).Elem(), "St2", "PPVN"},
	{"St2_PPVV", reflect.TypeOf((*St2_PPVV)(nil)).Elem(), "St2", "PPVV"},
	{"St2_PPVP", reflect.TypeOf((*St2_PPVP)(nil)).Elem(), "St2", "PPVP"},
	{"St2_PPPN", reflect.TypeOf((*St2_PPPN)(nil)).Elem(), "St2", "PPPN"},
	{"St2_PPPV", reflect.TypeOf((*St2_PPPV)(nil)).Elem(), "St2", "PPPV"},
	{"St2_PPPP", reflect.TypeOf((*St2_PPPP)(nil)).Elem(), "St2", "PPPP"},
	{"St1p_NNNN", reflect.TypeOf((*St1p_NNNN)(nil)).Elem(), "St1p", "NNNN"},
	{"St1p_NNNV", reflect.TypeOf((*St1p_NNNV)(nil)).Elem(), "St1p", "NNNV"},
	{"St1p_NNNP", reflect.TypeOf((*St1p_NNNP)(nil)).Elem(), "St1p", "NNNP"},
	{"St1p_NNVN", reflect.TypeOf((*St1p_NNVN)(nil)).Elem(), "St1p", "NNVN"},
	{"St1p_NNVV", reflect.TypeOf((*St1p_NNVV)(nil)).Elem(), "St1p", "NNVV"},
	{"St1p_NNVP", reflect.TypeOf((*St1p_NNVP)(nil)).Elem(), "St1p", "NNVP"},
	{"St1p_NNPN", reflect.TypeOf((*St1p_NNPN)(nil)).Elem(), "St1p", "NNPN"},
	{"St1p_NNPV", reflect.TypeOf((*St1p_NNPV)(nil)).Elem(), "St1p", "NNPV"},
	{"St1p_NNPP", reflect.TypeOf((*St1p_NNPP)(nil)).Elem(), "St1p", "NNPP"},
	{"St1p_NVNN", reflect.TypeOf((*St1p_NVNN)(nil)).Elem(), "St1p", "NVNN"},
	{"St1p_NVNV", reflect.TypeOf((*St1p_NVNV)(nil)).Elem(), "St1p", "NVNV"},
	{"St1p_NVNP", reflect.TypeOf((*St1p_NVNP)(nil)).Elem(), "St1p", "NVNP"},
	{"St1p_NVVN", reflect.TypeOf((*St1p_NVVN)(nil)).Elem(), "St1p", "NVVN"},
	{"St1p_NVVV", reflect.TypeOf((*St1p_NVVV)(nil)).Elem(), "St1p", "NVVV"},
	{"St1p_NVVP", reflect.TypeOf((*St1p_NVVP)(nil)).Elem(), "St1p", "NVVP"},
	{"St1p_NVPN", reflect.TypeOf((*St1p_NVPN)(nil)).Elem(), "St1p", "NVPN"},
	{"St1p_NVPV", reflect.TypeOf((*St1p_NVPV)(nil)).Elem(), "St1p", "NVPV"},
	{"St1p_NVPP", reflect.TypeOf((*St1p_NVPP)(nil)).Elem(), "St1p", "NVPP"},
	{"St1p_NPNN", reflect.TypeOf((*St1p_NPNN)(nil)).Elem(), "St1p", "NPNN"},
	{"St1p_NPNV", reflect.TypeOf((*St1p_NPNV)(nil)).Elem(), "St1p", "NPNV"},
	{"St1p_NPNP", reflect.TypeOf((*St1p_NPNP)(nil)).Elem(), "St1p", "NPNP"},
	{"St1p_NPVN", reflect.TypeOf((*St1p_NPVN)(nil)).Elem(), "St1p", "NPVN"},
	{"St1p_NPVV", reflect.TypeOf((*St1p_NPVV)(nil)).Elem(), "St1p", "NPVV"},
	{"St1p_NPVP", reflect.TypeOf((*St1p_NPVP)(nil)).Elem(), "St1p", "NPVP"},
	{"St1p_NPPN", reflect.TypeOf((*St1p_NPPN)(nil)).Elem(), "St1p", "NPPN"},
	{"St1p_NPPV", reflect.TypeOf((*St1p_NPPV)(nil)).Elem(), "St1p", "NPPV"},
	{"St1p_NPPP", reflect.TypeOf((*St1p_NPPP)(nil)).Elem(), "St1p", "NPPP"},
	{"St1p_VNNN", reflect.TypeOf((*St1p_VNNN)(nil)).Elem(), "St1p", "VNNN"},
	{"St1p_VNNV", reflect.TypeOf((*St1p_VNNV)(nil)).Elem(), "St1p", "VNNV"},
	{"St1p_VNNP", reflect.TypeOf((*St1p_VNNP)(nil)).Elem(), "St1p", "VNNP"},
	{"St1p_VNVN", reflect.TypeOf((*St1p_VNVN)(nil)).Elem(), "St1p", "VNVN"},
	{"St1p_VNVV", reflect.TypeOf((*St1p_VNVV)(nil)).Elem(), "St1p", "VNVV"},
	{"St1p_VNVP", reflect.TypeOf((*St1p_VNVP)(nil)).Elem(), "St1p", "VNVP"},
	{"St1p_VNPN", reflect.TypeOf((*St1p_VNPN)(nil)).Elem(), "St1p", "VNPN"},
	{"St1p_VNPV", reflect.TypeOf((*St1p_VNPV)(nil)).Elem(), "St1p", "VNPV"},
	{"St1p_VNPP", reflect.TypeOf((*St1p_VNPP)(nil)).Elem(), "St1p", "VNPP"},
	{"St1p_VVNN", reflect.TypeOf((*St1p_VVNN)(nil)).Elem(), "St1p", "VVNN"},
	{"St1p_VVNV", reflect.TypeOf((*St1p_VVNV)(nil)).Elem(), "St1p", "VVNV"},
	{"St1p_VVNP", reflect.TypeOf((*St1p_VVNP)(nil)).Elem(), "St1p", "VVNP"},
	{"St1p_VVVN", reflect.TypeOf((*St1p_VVVN)(nil)).Elem(), "St1p", "VVVN"},
	{"St1p_VVVV", reflect.TypeOf((*St1p_VVVV)(nil)).Elem(), "St1p", "VVVV"},
	{"St1p_VVVP", reflect.TypeOf((*St1p_VVVP)(nil)).Elem(), "St1p", "VVVP"},
	{"St1p_VVPN", reflect.TypeOf((*St1p_VVPN)(nil)).Elem(), "St1p", "VVPN"},
	{"St1p_VVPV", reflect.TypeOf((*St1p_VVPV)(nil)).Elem(), "St1p", "VVPV"},
	{"St1p_VVPP", reflect.TypeOf((*St1p_VVPP)(nil)).Elem(), "St1p", "VVPP"},
	{"St1p_VPNN", reflect.TypeOf((*St1p_VPNN)(nil)).Elem(), "St1p", "VPNN"},
	{"St1p_VPNV", reflect.TypeOf((*St1p_VPNV)(nil)).Elem(), "St1p", "VPNV"},
	{"St1p_VPNP", reflect.TypeOf((*St1p_VPNP)(nil)).Elem(), "St1p", "VPNP"},
	{"St1p_VPVN", reflect.TypeOf((*St1p_VPVN)(nil)).Elem(), "St1p", "VPVN"},
	{"St1p_VPVV", reflect.TypeOf((*St1p_VPVV)(nil)).Elem(), "St1p", "VPVV"},
	{"St1p_VPVP", reflect.TypeOf((*St1p_VPVP)(nil)).Elem(), "St1p", "VPVP"},
	{"St1p_VPPN", reflect.TypeOf((*St1p_VPPN)(nil)).Elem(), "St1p", "VPPN"},
	{"St1p_VPPV", reflect.TypeOf((*St1p_VPPV)(nil)).Elem(), "St1p", "VPPV"},
	{"St1p_VPPP", reflect.TypeOf((*St1p_VPPP)(nil)).Elem(), "St1p", "VPPP"},
	{"St1p_PNNN", reflect.TypeOf((*St1p_PNNN)(nil)).Elem(), "St1p", "PNNN"},
	{"St1p_PNNV", reflect.TypeOf((*St1p_PNNV)(nil)).Elem(), "St1p", "PNNV"},
	{"St1p_PNNP", reflect.TypeOf((*St1p_PNNP)(nil)).Elem(), "St1p", "PNNP"},
	{"St1p_PNVN", reflect.TypeOf((*St1p_PNVN)(nil)).Elem(), "St1p", "PNVN"},
	{"St1p_PNVV", reflect.TypeOf((*St1p_PNVV)(nil)).Elem(), "St1p", "PNVV"},
	{"St1p_PNVP", reflect.TypeOf((*St1p_PNVP)(nil)).Elem(), "St1p", "PNVP"},
	{"St1p_PNPN", reflect.TypeOf((*St1p_PNPN)(nil)).Elem(), "St1p", "PNPN"},
	{"St1p_PNPV", reflect.TypeOf((*St1p_PNPV)(nil)).Elem(), "St1p", "PNPV"},
	{"St1p_PNPP", reflect.TypeOf((*St1p_PNPP)(nil)).Elem(), "St1p", "PNPP"},
	{"St1p_PVNN", reflect.TypeOf((*St1p_PVNN)(nil)).Elem(), "St1p", "PVNN"},
	{"St1p_PVNV", reflect.TypeOf((*St1p_PVNV)(nil)).Elem(), "St1p", "PVNV"},
	{"St1p_PVNP", reflect.TypeOf((*St1p_PVNP)(nil)).Elem(), "St1p", "PVNP"},
	{"St1p_PVVN", reflect.TypeOf((*St1p_PVVN)(nil)).Elem(), "St1p", "PVVN"},
	{"St1p_PVVV", reflect.TypeOf((*St1p_PVVV)(nil)).Elem(), "St1p", "PVVV"},
	{"St1p_PVVP", reflect.TypeOf((*St1p_PVVP)(nil)).Elem(), "St1p", "PVVP"},
	{"St1p_PVPN", reflect.TypeOf((*St1p_PVPN)(nil)).Elem(), "St1p", "PVPN"},
	{"St1p_PVPV", reflect.TypeOf((*St1p_PVPV)(nil)).Elem(), "St1p", "PVPV"},
	{"St1p_PVPP", reflect.TypeOf((*St1p_PVPP)(nil)).Elem(), "St1p", "PVPP"},
	{"St1p_PPNN", reflect.TypeOf((*St1p_PPNN)(nil)).Elem(), "St1p", "PPNN"},
	{"St1p_PPNV", reflect.TypeOf((*St1p_PPNV)(nil)).Elem(), "St1p", "PPNV"},
	{"St1p_PPNP", reflect.TypeOf((*St1p_PPNP)(nil)).Elem(), "St1p", "PPNP"},
	{"St1p_PPVN", reflect.TypeOf((*St1p_PPVN)(nil)).Elem(), "St1p", "PPVN"},
	{"St1p_PPVV", reflect.TypeOf((*St1p_PPVV)(nil)).Elem(), "St1p", "PPVV"},
	{"St1p_PPVP", reflect.TypeOf((*St1p_PPVP)(nil)).Elem(), "St1p", "PPVP"},
	{"St1p_PPPN", reflect.TypeOf((*St1p_PPPN)(nil)).Elem(), "St1p", "PPPN"},
	{"St1p_PPPV", reflect.TypeOf((*St1p_PPPV)(nil)).Elem(), "St1p", "PPPV"},
	{"St1p_PPPP", reflect.TypeOf((*St1p_PPPP)(nil)).Elem(), "St1p", "PPPP"},
	{"Map_NNNN", reflect.TypeOf((*Map_NNNN)(nil)).Elem(), "Map", "NNNN"},
	{"Map_NNNV", reflect.TypeOf((*Map_NNNV)(nil)).Elem(), "Map", "NNNV"},
	{"Map_NNNP", reflect.TypeOf((*Map_NNNP)(nil)).Elem(), "Map", "NNNP"},
	{"Map_NNVN", reflect.TypeOf((*Map_NNVN)(nil)).Elem(), "Map", "NNVN"},
	{"Map_NNVV", reflect.TypeOf((*Map_NNVV)(nil)).Elem(), "Map", "NNVV"},
	{"Map_NNVP", reflect.TypeOf((*Map_NNVP)(nil)).Elem(), "Map", "NNVP"},
	{"Map_NNPN", reflect.TypeOf((*Map_NNPN)(nil)).Elem(), "Map", "NNPN"},
	{"Map_NNPV", reflect.TypeOf((*Map_NNPV)(nil)).Elem(), "Map", "NNPV"},
	{"Map_NNPP", reflect.TypeOf((*Map_NNPP)(nil)).Elem(), "Map", "NNPP"},
	{"Map_NVNN", reflect.TypeOf((*Map_NVNN)(nil)).Elem(), "Map", "NVNN"},
	{"Map_NVNV", reflect.TypeOf((*Map_NVNV)(nil)).Elem(), "Map", "NVNV"},
	{"Map_NVNP", reflect.TypeOf((*Map_NVNP)(nil)).Elem(), "Map", "NVNP"},
	{"Map_NVVN", reflect.TypeOf((*Map_NVVN)(nil)).Elem(), "Map", "NVVN"},
	{"Map_NVVV", reflect.TypeOf((*Map_NVVV)(nil)).Elem(), "Map", "NVVV"},
	{"Map_NVVP", reflect.TypeOf((*Map_NVVP)(nil)).Elem(), "Map", "NVVP"},
	{"Map_NVPN", reflect.TypeOf((*Map_NVPN)(nil)).Elem(), "Map", "NVPN"},
	{"Map_NVPV", reflect.TypeOf((*Map_NVPV)(nil)).Elem(), "Map", "NVPV"},
	{"Map_NVPP", reflect.TypeOf((*Map_NVPP)(nil)).Elem(), "Map", "NVPP"},
	{"Map_NPNN", reflect.TypeOf((*Map_NPNN)(nil)).Elem(), "Map", "NPNN"},
	{"Map_NPNV", reflect.TypeOf((*Map_NPNV)(nil)).Elem(), "Map", "NPNV"},
	{"Map_NPNP", reflect.TypeOf((*Map_NPNP)(nil)).Elem(), "Map", "NPNP"},
	{"Map_NPVN", reflect.TypeOf((*Map_NPVN)(nil)).Elem(), "Map", "NPVN"},
	{"Map_NPVV", reflect.TypeOf((*Map_NPVV)(nil)).Elem(), "Map", "NPVV"},
	{"Map_NPVP", reflect.TypeOf((*Map_NPVP)(nil)).Elem(), "Map", "NPVP"},
	{"Map_NPPN", reflect.TypeOf((*Map_NPPN)(nil)).Elem(), "Map", "NPPN"},
	{"Map_NPPV", reflect.TypeOf((*Map_NPPV)(nil)).Elem(), "Map", "NPPV"},
	{"Map_NPPP", reflect.TypeOf((*Map_NPPP)(nil)).Elem(), "Map", "NPPP"},
	{"Map_VNNN", reflect.TypeOf((*Map_VNNN)(nil)).Elem(), "Map", "VNNN"},
	{"Map_VNNV", reflect.TypeOf((*Map_VNNV)(nil)).Elem(), "Map", "VNNV"},
	{"Map_VNNP", reflect.TypeOf((*Map_VNNP)(nil)).Elem(), "Map", "VNNP"},
	{"Map_VNVN", reflect.TypeOf((*Map_VNVN)(nil)).Elem(), "Map", "VNVN"},
	{"Map_VNVV", reflect.TypeOf((*Map_VNVV)(nil)).Elem(), "Map", "VNVV"},
	{"Map_VNVP", reflect.TypeOf((*Map_VNVP)(nil)).Elem(), "Map", "VNVP"},
	{"Map_VNPN", reflect.TypeOf((*Map_VNPN)(nil)).Elem(), "Map", "VNPN"},
	{"Map_VNPV", reflect.TypeOf((*Map_VNPV)(nil)).Elem(), "Map", "VNPV"},
	{"Map_VNPP", reflect.TypeOf((*Map_VNPP)(nil)).Elem(), "Map", "VNPP"},
	{"Map_VVNN", reflect.TypeOf((*Map_VVNN)(nil)).Elem(), "Map", "VVNN"},
	{"Map_VVNV", reflect.TypeOf((*Map_VVNV)(nil)).Elem(), "Map", "VVNV"},
	{"Map_VVNP", reflect.TypeOf((*Map_VVNP)(nil)).Elem(), "Map", "VVNP"},
	{"Map_VVVN", reflect.TypeOf((*Map_VVVN)(nil)).Elem(), "Map", "VVVN"},
	{"Map_VVVV", reflect.TypeOf((*Map_VVVV)(nil)).Elem(), "Map", "VVVV"},
	{"Map_VVVP", reflect.TypeOf((*Map_VVVP)(nil)).Elem(), "Map", "VVVP"},
	{"Map_VVPN", reflect.TypeOf((*Map_VVPN)(nil)).Elem(), "Map", "VVPN"},
	{"Map_VVPV", reflect.TypeOf((*Map_VVPV)(nil)).Elem(), "Map", "VVPV"},
	{"Map_VVPP", reflect.TypeOf((*Map_VVPP)(nil)).Elem(), "Map", "VVPP"},
	{"Map_VPNN", reflect.TypeOf((*Map_VPNN)(nil)).Elem(), "Map", "VPNN"},
	{"Map_VPNV", reflect.TypeOf((*Map_VPNV)(nil)).Elem(), "Map", "VPNV"},
	{"Map_VPNP", reflect.TypeOf((*Map_VPNP)(nil)).Elem(), "Map", "VPNP"},
	{"Map_VPVN", reflect.TypeOf((*Map_VPVN)(nil)).Elem(), "Map", "VPVN"},
	{"Map_VPVV", reflect.TypeOf((*Map_VPVV)(nil)).Elem(), "Map", "VPVV"},
	{"Map_VPVP", reflect.TypeOf((*Map_VPVP)(nil)).Elem(), "Map", "VPVP"},
	{"Map_VPPN", reflect.TypeOf((*Map_VPPN)(nil)).Elem(), "Map", "VPPN"},
	{"Map_VPPV", reflect.TypeOf((*Map_VPPV)(nil)).Elem(), "Map", "VPPV"},
	{"Map_VPPP", reflect.TypeOf((*Map_VPPP)(nil)).Elem(), "Map", "VPPP"},
	{"Map_PNNN", reflect.TypeOf((*Map_PNNN)(nil)).Elem(), "Map", "PNNN"},
	{"Map_PNNV", reflect.TypeOf((*Map_PNNV)(nil)).Elem(), "Map", "PNNV"},
	{"Map_PNNP", reflect.TypeOf((*Map_PNNP)(nil)).Elem(), "Map", "PNNP"},
	{"Map_PNVN", reflect.TypeOf((*Map_PNVN)(nil)).Elem(), "Map", "PNVN"},
	{"Map_PNVV", reflect.TypeOf((*Map_PNVV)(nil)).Elem(), "Map", "PNVV"},
	{"Map_PNVP", reflect.TypeOf((*Map_PNVP)(nil)).Elem(), "Map", "PNVP"},
	{"Map_PNPN", reflect.TypeOf((*Map_PNPN)(nil)).Elem(), "Map", "PNPN"},
	{"Map_PNPV", reflect.TypeOf((*Map_PNPV)(nil)).Elem(), "Map", "PNPV"},
	{"Map_PNPP", reflect.TypeOf((*Map_PNPP)(nil)).Elem(), "Map", "PNPP"},
	{"Map_PVNN", reflect.TypeOf((*Map_PVNN)(nil)).Elem(), "Map", "PVNN"},
	{"Map_PVNV", reflect.TypeOf((*Map_PVNV)(nil)).Elem(), "Map", "PVNV"},
	{"Map_PVNP", reflect.TypeOf((*Map_PVNP)(nil)).Elem(), "Map", "PVNP"},
	{"Map_PVVN", reflect.TypeOf((*Map_PVVN)(nil)).Elem(), "Map", "PVVN"},
	{"Map_PVVV", reflect.TypeOf((*Map_PVVV)(nil)).Elem(), "Map", "PVVV"},
	{"Map_PVVP", reflect.TypeOf((*Map_PVVP)(nil)).Elem(), "Map", "PVVP"},
	{"Map_PVPN", reflect.TypeOf((*Map_PVPN)(nil)).Elem(), "Map", "PVPN"},
	{"Map_PVPV", reflect.TypeOf((*Map_PVPV)(nil)).Elem(), "Map", "PVPV"},
	{"Map_PVPP", reflect.TypeOf((*Map_PVPP)(nil)).Elem(), "Map", "PVPP"},
	{"Map_PPNN", reflect.TypeOf((*Map_PPNN)(nil)).Elem(), "Map", "PPNN"},
	{"Map_PPNV", reflect.TypeOf((*Map_PPNV)(nil)).Elem(), "Map", "PPNV"},
	{"Map_PPNP", reflect.TypeOf((*Map_PPNP)(nil)).Elem(), "Map", "PPNP"},
	{"Map_PPVN", reflect.TypeOf((*Map_PPVN)(nil)).Elem(), "Map", "PPVN"},
	{"Map_PPVV", reflect.TypeOf((*Map_PPVV)(nil)).Elem(), "Map", "PPVV"},
	{"Map_PPVP", reflect.TypeOf((*Map_PPVP)(nil)).Elem(), "Map", "PPVP"},
	{"Map_PPPN", reflect.TypeOf((*Map_PPPN)(nil)).Elem(), "Map", "PPPN"},
	{"Map_PPPV", reflect.TypeOf((*Map_PPPV)(nil)).Elem(), "Map", "PPPV"},
	{"Map_PPPP", reflect.TypeOf((*Map_PPPP)(nil)).Elem(), "Map", "PPPP"},
	{"Str_NNNN", reflect.TypeOf((*Str_NNNN)(nil)).Elem(), "Str", "NNNN"},
	{"Str_VNNN", reflect.TypeOf((*Str_VNNN)(nil)).Elem(), "Str", "VNNN"},
	{"Str_PNNN", reflect.TypeOf((*Str_PNNN)(nil)).Elem(), "Str", "PNNN"},
	{"Str_NVNN", reflect.TypeOf((*Str_NVNN)(nil)).Elem(), "Str", "NVNN"},
	{"Str_NPNN", reflect.TypeOf((*Str_NPNN)(nil)).Elem(), "Str", "NPNN"},
	{"Str_NNVN", reflect.TypeOf((*Str_NNVN)(nil)).Elem(), "Str", "NNVN"},
	{"Str_NNPN", reflect.TypeOf((*Str_NNPN)(nil)).Elem(), "Str", "NNPN"},
	{"Str_NNNV", reflect.TypeOf((*Str_NNNV)(nil)).Elem(), "Str", "NNNV"},
	{"Str_NNNP", reflect.TypeOf((*Str_NNNP)(nil)).Elem(), "Str", "NNNP"},
	{"Str_NVNV", reflect.TypeOf((*Str_NVNV)(nil)).Elem(), "Str", "NVNV"},
	{"Str_NNVV", reflect.TypeOf((*Str_NNVV)(nil)).Elem(), "Str", "NNVV"},
	{"Str_VVVV", reflect.TypeOf((*Str_VVVV)(nil)).Elem(), "Str", "VVVV"},
	{"Str_PPPP", reflect.TypeOf((*Str_PPPP)(nil)).Elem(), "Str", "PPPP"},
	{"Str_NNPV", reflect.TypeOf((*Str_NNPV)(nil)).Elem(), "Str", "NNPV"},
	{"Str_NPVN", reflect.TypeOf((*Str_NPVN)(nil)).Elem(), "Str", "NPVN"},
	{"Str_NNVP", reflect.TypeOf((*Str_NNVP)(nil)).Elem(), "Str", "NNVP"},
	{"Str_PNNV", reflect.TypeOf((*Str_PNNV)(nil)).Elem(), "Str", "PNNV"},
	{"U8_NNNN", reflect.TypeOf((*U8_NNNN)(nil)).Elem(), "U8", "NNNN"},
	{"U8_VNNN", reflect.TypeOf((*U8_VNNN)(nil)).Elem(), "U8", "VNNN"},
	{"U8_PNNN", reflect.TypeOf((*U8_PNNN)(nil)).Elem(), "U8", "PNNN"},
	{"U8_NVNN", reflect.TypeOf((*U8_NVNN)(nil)).Elem(), "U8", "NVNN"},
	{"U8_NPNN", reflect.TypeOf((*U8_NPNN)(nil)).Elem(), "U8", "NPNN"},
	{"U8_NNVN", reflect.TypeOf((*U8_NNVN)(nil)).Elem(), "U8", "NNVN"},
	{"U8_NNPN", reflect.TypeOf((*U8_NNPN)(nil)).Elem(), "U8", "NNPN"},
	{"U8_NNNV", reflect.TypeOf((*U8_NNNV)(nil)).Elem(), "U8", "NNNV"},
	{"U8_NNNP", reflect.TypeOf((*U8_NNNP)(nil)).Elem(), "U8", "NNNP"},
	{"U8_NVNV", reflect.TypeOf((*U8_NVNV)(nil)).Elem(), "U8", "NVNV"},
	{"U8_NNVV", reflect.TypeOf((*U8_NNVV)(nil)).Elem(), "U8", "NNVV"},
	{"U8_VVVV", reflect.TypeOf((*U8_VVVV)(nil)).Elem(), "U8", "VVVV"},
	{"U8_PPPP", reflect.TypeOf((*U8_PPPP)(nil)).Elem(), "U8", "PPPP"},
	{"U8_NNPV", reflect.TypeOf((*U8_NNPV)(nil)).Elem(), "U8", "NNPV"},
	{"U8_NPVN", reflect.TypeOf((*U8_NPVN)(nil)).Elem(), "U8", "NPVN"},
	{"U8_NNVP", reflect.TypeOf((*U8_NNVP)(nil)).Elem(), "U8", "NNVP"},
	{"U8_PNNV", reflect.TypeOf((*U8_PNNV)(nil)).Elem(), "U8", "PNNV"},
	{"Sl_NNNN", reflect.TypeOf((*Sl_NNNN)(nil)).Elem(), "Sl", "NNNN"},
	{"Sl_VNNN", reflect.TypeOf((*Sl_VNNN)(nil)).Elem(), "Sl", "VNNN"},
	{"Sl_PNNN", reflect.TypeOf((*Sl_PNNN)(nil)).Elem(), "Sl", "PNNN"},
	{"Sl_NVNN", reflect.TypeOf((*Sl_NVNN)(nil)).Elem(), "Sl", "NVNN"},
	{"Sl_NPNN", reflect.TypeOf((*Sl_NPNN)(nil)).Elem(), "Sl", "NPNN"},
	{"Sl_NNVN", reflect.TypeOf((*Sl_NNVN)(nil)).Elem(), "Sl", "NNVN"},
	{"Sl_NNPN", reflect.TypeOf((*Sl_NNPN)(nil)).Elem(), "Sl", "NNPN"},
	{"Sl_NNNV", reflect.TypeOf((*Sl_NNNV)(nil)).Elem(), "Sl", "NNNV"},
	{"Sl_NNNP", reflect.TypeOf((*Sl_NNNP)(nil)).Elem(), "Sl", "NNNP"},
	{"Sl_NVNV", reflect.TypeOf((*Sl_NVNV)(nil)).Elem(), "Sl", "NVNV"},
	{"Sl_NNVV", reflect.TypeOf((*Sl_NNVV)(nil)).Elem(), "Sl", "NNVV"},
	{"Sl_VVVV", reflect.TypeOf((*Sl_VVVV)(nil)).Elem(), "Sl", "VVVV"},
	{"Sl_PPPP", reflect.TypeOf((*Sl_PPPP)(nil)).Elem(), "Sl", "PPPP"},
	{"Sl_NNPV", reflect.TypeOf((*Sl_NNPV)(nil)).Elem(), "Sl", "NNPV"},
	{"Sl_NPVN", reflect.TypeOf((*Sl_NPVN)(nil)).Elem(), "Sl", "NPVN"},
	{"Sl_NNVP", reflect.TypeOf((*Sl_NNVP)(nil)).Elem(), "Sl", "NNVP"},
	{"Sl_PNNV", reflect.TypeOf((*Sl_PNNV)(nil)).Elem(), "Sl", "PNNV"},
	{"Arr1p_NNNN", reflect.TypeOf((*Arr1p_NNNN)(nil)).Elem(), "Arr1p", "NNNN"},
	{"Arr1p_VNNN", reflect.TypeOf((*Arr1p_VNNN)(nil)).Elem(), "Arr1p", "VNNN"},
	{"Arr1p_PNNN", reflect.TypeOf((*Arr1p_PNNN)(nil)).Elem(), "Arr1p", "PNNN"},
	{"Arr1p_NVNN", reflect.TypeOf((*Arr1p_NVNN)(nil)).Elem(), "Arr1p", "NVNN"},
	{"Arr1p_NPNN", reflect.TypeOf((*Arr1p_NPNN)(nil)).Elem(), "Arr1p", "NPNN"},
	{"Arr1p_NNVN", reflect.TypeOf((*Arr1p_NNVN)(nil)).Elem(), "Arr1p", "NNVN"},
	{"Arr1p_NNPN", reflect.TypeOf((*Arr1p_NNPN)(nil)).Elem(), "Arr1p", "NNPN"},
	{"Arr1p_NNNV", reflect.TypeOf((*Arr1p_NNNV)(nil)).Elem(), "Arr1p", "NNNV"},
	{"Arr1p_NNNP", reflect.TypeOf((*Arr1p_NNNP)(nil)).Elem(), "Arr1p", "NNNP"},
	{"Arr1p_NVNV", reflect.TypeOf((*Arr1p_NVNV)(nil)).Elem(), "Arr1p", "NVNV"},
	{"Arr1p_NNVV", reflect.TypeOf((*Arr1p_NNVV)(nil)).Elem(), "Arr1p", "NNVV"},
	{"Arr1p_VVVV", reflect.TypeOf((*Arr1p_VVVV)(nil)).Elem(), "Arr1p", "VVVV"},
	{"Arr1p_PPPP", reflect.TypeOf((*Arr1p_PPPP)(nil)).Elem(), "Arr1p", "PPPP"},
	{"Arr1p_NNPV", reflect.TypeOf((*Arr1p_NNPV)(nil)).Elem(), "Arr1p", "NNPV"},
	{"Arr1p_NPVN", reflect.TypeOf((*Arr1p_NPVN)(nil)).Elem(), "Arr1p", "NPVN"},
	{"Arr1p_NNVP", reflect.TypeOf((*Arr1p_NNVP)(nil)).Elem(), "Arr1p", "NNVP"},
	{"Arr1p_PNNV", reflect.TypeOf((*Arr1p_PNNV)(nil)).Elem(), "Arr1p", "PNNV"},
	{"Fn_NNNN", reflect.TypeOf((*Fn_NNNN)(nil)).Elem(), "Fn", "NNNN"},
	{"Fn_VNNN", reflect.TypeOf((*Fn_VNNN)(nil)).Elem(), "Fn", "VNNN"},
	{"Fn_PNNN", reflect.TypeOf((*Fn_PNNN)(nil)).Elem(), "Fn", "PNNN"},
	{"Fn_NVNN", reflect.TypeOf((*Fn_NVNN)(nil)).Elem(), "Fn", "NVNN"},
	{"Fn_NPNN", reflect.TypeOf((*Fn_NPNN)(nil)).Elem(), "Fn", "NPNN"},
	{"Fn_NNVN", reflect.TypeOf((*Fn_NNVN)(nil)).Elem(), "Fn", "NNVN"},
	{"Fn_NNPN", reflect.TypeOf((*Fn_NNPN)(nil)).Elem(), "Fn", "NNPN"},
	{"Fn_NNNV", reflect.TypeOf((*Fn_NNNV)(nil)).Elem(), "Fn", "NNNV"},
	{"Fn_NNNP", reflect.TypeOf((*Fn_NNNP)(nil)).Elem(), "Fn", "NNNP"},
	{"Fn_NVNV", reflect.TypeOf((*Fn_NVNV)(nil)).Elem(), "Fn", "NVNV"},
	{"Fn_NNVV", reflect.TypeOf((*Fn_NNVV)(nil)).Elem(), "Fn", "NNVV"},
	{"Fn_VVVV", reflect.TypeOf((*Fn_VVVV)(nil)).Elem(), "Fn", "VVVV"},
	{"Fn_PPPP", reflect.TypeOf((*Fn_PPPP)(nil)).Elem(), "Fn", "PPPP"},
	{"Fn_NNPV", reflect.TypeOf((*Fn_NNPV)(nil)).Elem(), "Fn", "NNPV"},
	{"Fn_NPVN", reflect.TypeOf((*Fn_NPVN)(nil)).Elem(), "Fn", "NPVN"},
	{"Fn_NNVP", reflect.TypeOf((*Fn_NNVP)(nil)).Elem(), "Fn", "NNVP"},
	{"Fn_PNNV", reflect.TypeOf((*Fn_PNNV)(nil)).Elem(), "Fn", "PNNV"},
	{"St0_NNNN", reflect.TypeOf((*St0_NNNN)(nil)).Elem(), "St0", "NNNN"},
	{"St0_VNNN", reflect.TypeOf((*St0_VNNN)(nil)).Elem(), "St0", "VNNN"},
	{"St0_PNNN", reflect.TypeOf((*St0_PNNN)(nil)).Elem(), "St0", "PNNN"},
	{"St0_NVNN", reflect.TypeOf((*St0_NVNN)(nil)).Elem(), "St0", "NVNN"},
	{"St0_NPNN", reflect.TypeOf((*St0_NPNN)(nil)).Elem(), "St0", "NPNN"},
	{"St0_NNVN", reflect.TypeOf((*St0_NNVN)(nil)).Elem(), "St0", "NNVN"},
	{"St0_NNPN", reflect.TypeOf((*St0_NNPN)(nil)).Elem(), "St0", "NNPN"},
	{"St0_NNNV", reflect.TypeOf((*St0_NNNV)(nil)).Elem(), "St0", "NNNV"},
	{"St0_NNNP", reflect.TypeOf((*St0_NNNP)(nil)).Elem(), "St0", "NNNP"},
	{"St0_NVNV", reflect.TypeOf((*St0_NVNV)(nil)).Elem(), "St0", "NVNV"},
	{"St0_NNVV", reflect.TypeOf((*St0_NNVV)(nil)).Elem(), "St0", "NNVV"},
	{"St0_VVVV", reflect.TypeOf((*St0_VVVV)(nil)).Elem(), "St0", "VVVV"},
	{"St0_PPPP", reflect.TypeOf((*St0_PPPP)(nil)).Elem(), "St0", "PPPP"},
	{"St0_NNPV", reflect.TypeOf((*St0_NNPV)(nil)).Elem(), "St0", "NNPV"},
	{"St0_NPVN", reflect.TypeOf((*St0_NPVN)(nil)).Elem(), "St0", "NPVN"},
	{"St0_NNVP", reflect.TypeOf((*St0_NNVP)(nil)).Elem(), "St0", "NNVP"},
	{"St0_PNNV", reflect.TypeOf((*St0_PNNV)(nil)).Elem(), "St0", "PNNV"},
	{"F64_NNNN", reflect.TypeOf((*F64_NNNN)(nil)).Elem(), "F64", "NNNN"},
	{"F64_VNNN", reflect.TypeOf((*F64_VNNN)(nil)).Elem(), "F64", "VNNN"},
	{"F64_PNNN", reflect.TypeOf((*F64_PNNN)(nil)).Elem(), "F64", "PNNN"},
	{"F64_NVNN", reflect.TypeOf((*F64_NVNN)(nil)).Elem(), "F64", "NVNN"},
	{"F64_NPNN", reflect.TypeOf((*F64_NPNN)(nil)).Elem(), "F64", "NPNN"},
	{"F64_NNVN", reflect.TypeOf((*F64_NNVN)(nil)).Elem(), "F64", "NNVN"},
	{"F64_NNPN", reflect.TypeOf((*F64_NNPN)(nil)).Elem(), "F64", "NNPN"},
	{"F64_NNNV", reflect.TypeOf((*F64_NNNV)(nil)).Elem(), "F64", "NNNV"},
	{"F64_NNNP", reflect.TypeOf((*F64_NNNP)(nil)).Elem(), "F64", "NNNP"},
	{"F64_NVNV", reflect.TypeOf((*F64_NVNV)(nil)).Elem(), "F64", "NVNV"},
	{"F64_NNVV", reflect.TypeOf((*F64_NNVV)(nil)).Elem(), "F64", "NNVV"},
	{"F64_VVVV", reflect.TypeOf((*F64_VVVV)(nil)).Elem(), "F64", "VVVV"},
	{"F64_PPPP", reflect.TypeOf((*F64_PPPP)(nil)).Elem(), "F64", "PPPP"},
	{"F64_NNPV", reflect.TypeOf((*F64_NNPV)(nil)).Elem(), "F64", "NNPV"},
	{"F64_NPVN", reflect.TypeOf((*F64_NPVN)(nil)).Elem(), "F64", "NPVN"},
	{"F64_NNVP", reflect.TypeOf((*F64_NNVP)(nil)).Elem(), "F64", "NNVP"},
	{"F64_PNNV", reflect.TypeOf((*F64_PNNV)(nil)).Elem(), "F64", "PNNV"},
	{"Bool_NNNN", reflect.TypeOf((*Bool_NNNN)(nil)).Elem(), "Bool", "NNNN"},
	{"Bool_VNNN", reflect.TypeOf((*Bool_VNNN)(nil)).Elem(), "Bool", "VNNN"},
	{"Bool_PNNN", reflect.TypeOf((*Bool_PNNN)(nil)).Elem(), "Bool", "PNNN"},
	{"Bool_NVNN", reflect.TypeOf((*Bool_NVNN)(nil)).Elem(), "Bool", "NVNN"},
	{"Bool_NPNN", reflect.TypeOf((*Bool_NPNN)(nil)).Elem(), "Bool", "NPNN"},
	{"Bool_NNVN", reflect.TypeOf((*Bool_NNVN)(nil)).Elem(), "Bool", "NNVN"},
	{"Bool_NNPN", reflect.TypeOf((*Bool_NNPN)(nil)).Elem(), "Bool", "NNPN"},
	{"Bool_NNNV", reflect.TypeOf((*Bool_NNNV)(nil)).Elem(), "Bool", "NNNV"},
	{"Bool_NNNP", reflect.TypeOf((*Bool_NNNP)(nil)).Elem(), "Bool", "NNNP"},
	{"Bool_NVNV", reflect.TypeOf((*Bool_NVNV)(nil)).Elem(), "Bool", "NVNV"},
	{"Bool_NNVV", reflect.TypeOf((*Bool_NNVV)(nil)).Elem(), "Bool", "NNVV"},
	{"Bool_VVVV", reflect.TypeOf((*Bool_VVVV)(nil)).Elem(), "Bool", "VVVV"},
	{"Bool_PPPP", reflect.TypeOf((*Bool_PPPP)(nil)).Elem(), "Bool", "PPPP"},
	{"Bool_NNPV", reflect.TypeOf((*Bool_NNPV)(nil)).Elem(), "Bool", "NNPV"},
	{"Bool_NPVN", reflect.TypeOf((*Bool_NPVN)(nil)).Elem(), "Bool", "NPVN"},
	{"Bool_NNVP", reflect.TypeOf((*Bool_NNVP)(nil)).Elem(), "Bool", "NNVP"},
	{"Bool_PNNV", reflect.TypeOf((*Bool_PNNV)(nil)).Elem(), "Bool", "PNNV"},
	{"Arr2_NNNN", reflect.TypeOf((*Arr2_NNNN)(nil)).Elem(), "Arr2", "NNNN"},
	{"Arr2_VNNN", reflect.TypeOf((*Arr2_VNNN)(nil)).Elem(), "Arr2", "VNNN"},
	{"Arr2_PNNN", reflect.TypeOf((*Arr2_PNNN)(nil)).Elem(), "Arr2", "PNNN"},
	{"Arr2_NVNN", reflect.TypeOf((*Arr2_NVNN)(nil)).Elem(), "Arr2", "NVNN"},
	{"Arr2_NPNN", reflect.TypeOf((*Arr2_NPNN)(nil)).Elem(), "Arr2", "NPNN"},
	{"Arr2_NNVN", reflect.TypeOf((*Arr2_NNVN)(nil)).Elem(), "Arr2", "NNVN"},
	{"Arr2_NNPN", reflect.TypeOf((*Arr2_NNPN)(nil)).Elem(), "Arr2", "NNPN"},
	{"Arr2_NNNV", reflect.TypeOf((*Arr2_NNNV)(nil)).Elem(), "Arr2", "NNNV"},
	{"Arr2_NNNP", reflect.TypeOf((*Arr2_NNNP)(nil)).Elem(), "Arr2", "NNNP"},
	{"Arr2_NVNV", reflect.TypeOf((*Arr2_NVNV)(nil)).Elem(), "Arr2", "NVNV"},
	{"Arr2_NNVV", reflect.TypeOf((*Arr2_NNVV)(nil)).Elem(), "Arr2", "NNVV"},
	{"Arr2_VVVV", reflect.TypeOf((*Arr2_VVVV)(nil)).Elem(), "Arr2", "VVVV"},
	{"Arr2_PPPP", reflect.TypeOf((*Arr2_PPPP)(nil)).Elem(), "Arr2", "PPPP"},
	{"Arr2_NNPV", reflect.TypeOf((*Arr2_NNPV)(nil)).Elem(), "Arr2", "NNPV"},
	{"Arr2_NPVN", reflect.TypeOf((*Arr2_NPVN)(nil)).Elem(), "Arr2", "NPVN"},
	{"Arr2_NNVP", reflect.TypeOf((*Arr2_NNVP)(nil)).Elem(), "Arr2", "NNVP"},
	{"Arr2_PNNV", reflect.TypeOf((*Arr2_PNNV)(nil)).Elem(), "Arr2", "PNNV"},
	{"Big_NNNN", reflect.TypeOf((*Big_NNNN)(nil)).Elem(), "Big", "NNNN"},
	{"Big_VNNN", reflect.TypeOf((*Big_VNNN)(nil)).Elem(), "Big", "VNNN"},
	{"Big_PNNN", reflect.TypeOf((*Big_PNNN)(nil)).Elem(), "Big", "PNNN"},
	{"Big_NVNN", reflect.TypeOf((*Big_NVNN)(nil)).Elem(), "Big", "NVNN"},
	{"Big_NPNN", reflect.TypeOf((*Big_NPNN)(nil)).Elem(), "Big", "NPNN"},
	{"Big_NNVN", reflect.TypeOf((*Big_NNVN)(nil)).Elem(), "Big", "NNVN"},
	{"Big_NNPN", reflect.TypeOf((*Big_NNPN)(nil)).Elem(), "Big", "NNPN"},
	{"Big_NNNV", reflect.TypeOf((*Big_NNNV)(nil)).Elem(), "Big", "NNNV"},
	{"Big_NNNP", reflect.TypeOf((*Big_NNNP)(nil)).Elem(), "Big", "NNNP"},
	{"Big_NVNV", reflect.TypeOf((*Big_NVNV)(nil)).Elem(), "Big", "NVNV"},
	{"Big_NNVV", reflect.TypeOf((*Big_NNVV)(nil)).Elem(), "Big", "NNVV"},
	{"Big_VVVV", reflect.TypeOf((*Big_VVVV)(nil)).Elem(), "Big", "VVVV"},
	{"Big_PPPP", reflect.TypeOf((*Big_PPPP)(nil)).Elem(), "Big", "PPPP"},
	{"Big_NNPV", reflect.TypeOf((*Big_NNPV)(nil)).Elem(), "Big", "NNPV"},
	{"Big_NPVN", reflect.TypeOf((*Big_NPVN)(nil)).Elem(), "Big", "NPVN"},
	{"Big_NNVP", reflect.TypeOf((*Big_NNVP)(nil)).Elem(), "Big", "NNVP"},
	{"Big_PNNV", reflect.TypeOf((*Big_PNNV)(nil)).Elem(), "Big", "PNNV"},
}
