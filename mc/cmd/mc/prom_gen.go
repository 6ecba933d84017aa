// Code generated by tools/gen_prom.py. DO NOT EDIT.

package main

import (
	"context"
	"encoding"
	"encoding/json"

	"github.com/wI2L/jettison"
)

type pgVJ struct{ N int }

func (pgVJ) MarshalJSON() ([]byte, error) { return []byte(`"VJ"`), nil }

type pgPJ struct{ N int }

func (*pgPJ) MarshalJSON() ([]byte, error) { return []byte(`"PJ"`), nil }

type pgVT struct{ N int }

func (pgVT) MarshalText() ([]byte, error) { return []byte(`VT`), nil }

type pgPT struct{ N int }

func (*pgPT) MarshalText() ([]byte, error) { return []byte(`PT`), nil }

type pgVA struct{ N int }

func (pgVA) AppendJSON(b []byte) ([]byte, error) { return append(b, `"VA"`...), nil }

type pgPA struct{ N int }

func (*pgPA) AppendJSON(b []byte) ([]byte, error) { return append(b, `"PA"`...), nil }

type pgVC struct{ N int }

func (pgVC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"VC"`...), nil
}

type pgPC struct{ N int }

func (*pgPC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"PC"`...), nil
}

type pgIJT interface {
	json.Marshaler
	encoding.TextMarshaler
}
type pgAll struct{ N int }

func (pgAll) MarshalJSON() ([]byte, error)        { return []byte(`"allJ"`), nil }
func (pgAll) MarshalText() ([]byte, error)        { return []byte(`allT`), nil }
func (pgAll) AppendJSON(b []byte) ([]byte, error) { return append(b, `"allA"`...), nil }
func (pgAll) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"allC"`...), nil
}

type pg_n__ struct{ X int }
type pg_n_Jv_ struct{ X int }

func (pg_n_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_n_Jp_ struct{ X int }

func (*pg_n_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_n_Tv_ struct{ X int }

func (pg_n_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_n_Tp_ struct{ X int }

func (*pg_n_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_n_Av_ struct{ X int }

func (pg_n_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_n_Ap_ struct{ X int }

func (*pg_n_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_n_Cv_ struct{ X int }

func (pg_n_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_n_Cp_ struct{ X int }

func (*pg_n_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_ struct{ json.Marshaler }
type pg_iJ__ struct {
	json.Marshaler
	X int
}
type pg_iJ_Jv struct{ json.Marshaler }

func (pg_iJ_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iJ_Jv_ struct {
	json.Marshaler
	X int
}

func (pg_iJ_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iJ_Jp struct{ json.Marshaler }

func (*pg_iJ_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iJ_Jp_ struct {
	json.Marshaler
	X int
}

func (*pg_iJ_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iJ_Tv struct{ json.Marshaler }

func (pg_iJ_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iJ_Tv_ struct {
	json.Marshaler
	X int
}

func (pg_iJ_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iJ_Tp struct{ json.Marshaler }

func (*pg_iJ_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iJ_Tp_ struct {
	json.Marshaler
	X int
}

func (*pg_iJ_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iJ_Av struct{ json.Marshaler }

func (pg_iJ_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_Av_ struct {
	json.Marshaler
	X int
}

func (pg_iJ_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_Ap struct{ json.Marshaler }

func (*pg_iJ_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_Ap_ struct {
	json.Marshaler
	X int
}

func (*pg_iJ_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_Cv struct{ json.Marshaler }

func (pg_iJ_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_Cv_ struct {
	json.Marshaler
	X int
}

func (pg_iJ_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_Cp struct{ json.Marshaler }

func (*pg_iJ_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_Cp_ struct {
	json.Marshaler
	X int
}

func (*pg_iJ_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_JvTv struct{ json.Marshaler }

func (pg_iJ_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iJ_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iJ_JvTp struct{ json.Marshaler }

func (pg_iJ_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_iJ_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iJ_JpTv struct{ json.Marshaler }

func (*pg_iJ_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iJ_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_iJ_JpTp struct{ json.Marshaler }

func (*pg_iJ_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iJ_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iJ_JvAv struct{ json.Marshaler }

func (pg_iJ_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_iJ_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_JvAp struct{ json.Marshaler }

func (pg_iJ_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_iJ_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_JpAv struct{ json.Marshaler }

func (*pg_iJ_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_iJ_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_JpAp struct{ json.Marshaler }

func (*pg_iJ_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_iJ_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_JvCv struct{ json.Marshaler }

func (pg_iJ_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iJ_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_JvCp struct{ json.Marshaler }

func (pg_iJ_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iJ_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_JpCv struct{ json.Marshaler }

func (*pg_iJ_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iJ_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_JpCp struct{ json.Marshaler }

func (*pg_iJ_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iJ_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_TvAv struct{ json.Marshaler }

func (pg_iJ_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_iJ_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_TvAp struct{ json.Marshaler }

func (pg_iJ_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_iJ_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_TpAv struct{ json.Marshaler }

func (*pg_iJ_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_iJ_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_TpAp struct{ json.Marshaler }

func (*pg_iJ_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_iJ_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iJ_TvCv struct{ json.Marshaler }

func (pg_iJ_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iJ_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_TvCp struct{ json.Marshaler }

func (pg_iJ_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iJ_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_TpCv struct{ json.Marshaler }

func (*pg_iJ_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iJ_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_TpCp struct{ json.Marshaler }

func (*pg_iJ_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iJ_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_AvCv struct{ json.Marshaler }

func (pg_iJ_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iJ_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_AvCp struct{ json.Marshaler }

func (pg_iJ_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iJ_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_ApCv struct{ json.Marshaler }

func (*pg_iJ_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iJ_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iJ_ApCp struct{ json.Marshaler }

func (*pg_iJ_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iJ_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_ struct{ encoding.TextMarshaler }
type pg_iT__ struct {
	encoding.TextMarshaler
	X int
}
type pg_iT_Jv struct{ encoding.TextMarshaler }

func (pg_iT_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iT_Jv_ struct {
	encoding.TextMarshaler
	X int
}

func (pg_iT_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iT_Jp struct{ encoding.TextMarshaler }

func (*pg_iT_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iT_Jp_ struct {
	encoding.TextMarshaler
	X int
}

func (*pg_iT_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iT_Tv struct{ encoding.TextMarshaler }

func (pg_iT_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iT_Tv_ struct {
	encoding.TextMarshaler
	X int
}

func (pg_iT_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iT_Tp struct{ encoding.TextMarshaler }

func (*pg_iT_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iT_Tp_ struct {
	encoding.TextMarshaler
	X int
}

func (*pg_iT_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iT_Av struct{ encoding.TextMarshaler }

func (pg_iT_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_Av_ struct {
	encoding.TextMarshaler
	X int
}

func (pg_iT_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_Ap struct{ encoding.TextMarshaler }

func (*pg_iT_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_Ap_ struct {
	encoding.TextMarshaler
	X int
}

func (*pg_iT_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_Cv struct{ encoding.TextMarshaler }

func (pg_iT_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_Cv_ struct {
	encoding.TextMarshaler
	X int
}

func (pg_iT_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_Cp struct{ encoding.TextMarshaler }

func (*pg_iT_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_Cp_ struct {
	encoding.TextMarshaler
	X int
}

func (*pg_iT_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_JvTv struct{ encoding.TextMarshaler }

func (pg_iT_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iT_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iT_JvTp struct{ encoding.TextMarshaler }

func (pg_iT_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_iT_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iT_JpTv struct{ encoding.TextMarshaler }

func (*pg_iT_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iT_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_iT_JpTp struct{ encoding.TextMarshaler }

func (*pg_iT_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iT_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iT_JvAv struct{ encoding.TextMarshaler }

func (pg_iT_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_iT_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_JvAp struct{ encoding.TextMarshaler }

func (pg_iT_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_iT_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_JpAv struct{ encoding.TextMarshaler }

func (*pg_iT_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_iT_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_JpAp struct{ encoding.TextMarshaler }

func (*pg_iT_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_iT_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_JvCv struct{ encoding.TextMarshaler }

func (pg_iT_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iT_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_JvCp struct{ encoding.TextMarshaler }

func (pg_iT_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iT_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_JpCv struct{ encoding.TextMarshaler }

func (*pg_iT_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iT_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_JpCp struct{ encoding.TextMarshaler }

func (*pg_iT_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iT_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_TvAv struct{ encoding.TextMarshaler }

func (pg_iT_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_iT_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_TvAp struct{ encoding.TextMarshaler }

func (pg_iT_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_iT_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_TpAv struct{ encoding.TextMarshaler }

func (*pg_iT_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_iT_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_TpAp struct{ encoding.TextMarshaler }

func (*pg_iT_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_iT_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iT_TvCv struct{ encoding.TextMarshaler }

func (pg_iT_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iT_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_TvCp struct{ encoding.TextMarshaler }

func (pg_iT_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iT_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_TpCv struct{ encoding.TextMarshaler }

func (*pg_iT_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iT_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_TpCp struct{ encoding.TextMarshaler }

func (*pg_iT_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iT_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_AvCv struct{ encoding.TextMarshaler }

func (pg_iT_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iT_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_AvCp struct{ encoding.TextMarshaler }

func (pg_iT_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iT_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_ApCv struct{ encoding.TextMarshaler }

func (*pg_iT_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iT_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iT_ApCp struct{ encoding.TextMarshaler }

func (*pg_iT_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iT_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_ struct{ jettison.AppendMarshaler }
type pg_iA__ struct {
	jettison.AppendMarshaler
	X int
}
type pg_iA_Jv struct{ jettison.AppendMarshaler }

func (pg_iA_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iA_Jv_ struct {
	jettison.AppendMarshaler
	X int
}

func (pg_iA_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iA_Jp struct{ jettison.AppendMarshaler }

func (*pg_iA_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iA_Jp_ struct {
	jettison.AppendMarshaler
	X int
}

func (*pg_iA_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iA_Tv struct{ jettison.AppendMarshaler }

func (pg_iA_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iA_Tv_ struct {
	jettison.AppendMarshaler
	X int
}

func (pg_iA_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iA_Tp struct{ jettison.AppendMarshaler }

func (*pg_iA_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iA_Tp_ struct {
	jettison.AppendMarshaler
	X int
}

func (*pg_iA_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iA_Av struct{ jettison.AppendMarshaler }

func (pg_iA_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_Av_ struct {
	jettison.AppendMarshaler
	X int
}

func (pg_iA_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_Ap struct{ jettison.AppendMarshaler }

func (*pg_iA_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_Ap_ struct {
	jettison.AppendMarshaler
	X int
}

func (*pg_iA_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_Cv struct{ jettison.AppendMarshaler }

func (pg_iA_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_Cv_ struct {
	jettison.AppendMarshaler
	X int
}

func (pg_iA_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_Cp struct{ jettison.AppendMarshaler }

func (*pg_iA_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_Cp_ struct {
	jettison.AppendMarshaler
	X int
}

func (*pg_iA_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_JvTv struct{ jettison.AppendMarshaler }

func (pg_iA_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iA_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iA_JvTp struct{ jettison.AppendMarshaler }

func (pg_iA_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_iA_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iA_JpTv struct{ jettison.AppendMarshaler }

func (*pg_iA_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iA_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_iA_JpTp struct{ jettison.AppendMarshaler }

func (*pg_iA_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iA_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iA_JvAv struct{ jettison.AppendMarshaler }

func (pg_iA_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_iA_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_JvAp struct{ jettison.AppendMarshaler }

func (pg_iA_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_iA_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_JpAv struct{ jettison.AppendMarshaler }

func (*pg_iA_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_iA_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_JpAp struct{ jettison.AppendMarshaler }

func (*pg_iA_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_iA_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_JvCv struct{ jettison.AppendMarshaler }

func (pg_iA_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iA_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_JvCp struct{ jettison.AppendMarshaler }

func (pg_iA_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iA_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_JpCv struct{ jettison.AppendMarshaler }

func (*pg_iA_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iA_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_JpCp struct{ jettison.AppendMarshaler }

func (*pg_iA_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iA_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_TvAv struct{ jettison.AppendMarshaler }

func (pg_iA_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_iA_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_TvAp struct{ jettison.AppendMarshaler }

func (pg_iA_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_iA_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_TpAv struct{ jettison.AppendMarshaler }

func (*pg_iA_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_iA_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_TpAp struct{ jettison.AppendMarshaler }

func (*pg_iA_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_iA_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iA_TvCv struct{ jettison.AppendMarshaler }

func (pg_iA_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iA_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_TvCp struct{ jettison.AppendMarshaler }

func (pg_iA_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iA_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_TpCv struct{ jettison.AppendMarshaler }

func (*pg_iA_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iA_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_TpCp struct{ jettison.AppendMarshaler }

func (*pg_iA_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iA_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_AvCv struct{ jettison.AppendMarshaler }

func (pg_iA_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iA_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_AvCp struct{ jettison.AppendMarshaler }

func (pg_iA_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iA_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_ApCv struct{ jettison.AppendMarshaler }

func (*pg_iA_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iA_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iA_ApCp struct{ jettison.AppendMarshaler }

func (*pg_iA_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iA_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_ struct{ jettison.AppendMarshalerCtx }
type pg_iC__ struct {
	jettison.AppendMarshalerCtx
	X int
}
type pg_iC_Jv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iC_Jv_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (pg_iC_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iC_Jp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iC_Jp_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (*pg_iC_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iC_Tv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iC_Tv_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (pg_iC_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iC_Tp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iC_Tp_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (*pg_iC_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iC_Av struct{ jettison.AppendMarshalerCtx }

func (pg_iC_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_Av_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (pg_iC_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_Ap struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_Ap_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (*pg_iC_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_Cv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_Cv_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (pg_iC_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_Cp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_Cp_ struct {
	jettison.AppendMarshalerCtx
	X int
}

func (*pg_iC_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_JvTv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iC_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iC_JvTp struct{ jettison.AppendMarshalerCtx }

func (pg_iC_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_iC_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iC_JpTv struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iC_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_iC_JpTp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iC_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iC_JvAv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_iC_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_JvAp struct{ jettison.AppendMarshalerCtx }

func (pg_iC_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_iC_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_JpAv struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_iC_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_JpAp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_iC_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_JvCv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iC_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_JvCp struct{ jettison.AppendMarshalerCtx }

func (pg_iC_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iC_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_JpCv struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iC_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_JpCp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iC_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_TvAv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_iC_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_TvAp struct{ jettison.AppendMarshalerCtx }

func (pg_iC_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_iC_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_TpAv struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_iC_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_TpAp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_iC_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iC_TvCv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iC_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_TvCp struct{ jettison.AppendMarshalerCtx }

func (pg_iC_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iC_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_TpCv struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iC_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_TpCp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iC_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_AvCv struct{ jettison.AppendMarshalerCtx }

func (pg_iC_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iC_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_AvCp struct{ jettison.AppendMarshalerCtx }

func (pg_iC_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iC_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_ApCv struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iC_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iC_ApCp struct{ jettison.AppendMarshalerCtx }

func (*pg_iC_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iC_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_ struct{ pgIJT }
type pg_iX__ struct {
	pgIJT
	X int
}
type pg_iX_Jv struct{ pgIJT }

func (pg_iX_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iX_Jv_ struct {
	pgIJT
	X int
}

func (pg_iX_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iX_Jp struct{ pgIJT }

func (*pg_iX_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iX_Jp_ struct {
	pgIJT
	X int
}

func (*pg_iX_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_iX_Tv struct{ pgIJT }

func (pg_iX_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iX_Tv_ struct {
	pgIJT
	X int
}

func (pg_iX_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iX_Tp struct{ pgIJT }

func (*pg_iX_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iX_Tp_ struct {
	pgIJT
	X int
}

func (*pg_iX_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iX_Av struct{ pgIJT }

func (pg_iX_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_Av_ struct {
	pgIJT
	X int
}

func (pg_iX_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_Ap struct{ pgIJT }

func (*pg_iX_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_Ap_ struct {
	pgIJT
	X int
}

func (*pg_iX_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_Cv struct{ pgIJT }

func (pg_iX_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_Cv_ struct {
	pgIJT
	X int
}

func (pg_iX_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_Cp struct{ pgIJT }

func (*pg_iX_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_Cp_ struct {
	pgIJT
	X int
}

func (*pg_iX_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_JvTv struct{ pgIJT }

func (pg_iX_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iX_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iX_JvTp struct{ pgIJT }

func (pg_iX_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_iX_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iX_JpTv struct{ pgIJT }

func (*pg_iX_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iX_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_iX_JpTp struct{ pgIJT }

func (*pg_iX_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iX_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_iX_JvAv struct{ pgIJT }

func (pg_iX_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_iX_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_JvAp struct{ pgIJT }

func (pg_iX_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_iX_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_JpAv struct{ pgIJT }

func (*pg_iX_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_iX_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_JpAp struct{ pgIJT }

func (*pg_iX_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_iX_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_JvCv struct{ pgIJT }

func (pg_iX_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iX_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_JvCp struct{ pgIJT }

func (pg_iX_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iX_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_JpCv struct{ pgIJT }

func (*pg_iX_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_iX_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_JpCp struct{ pgIJT }

func (*pg_iX_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_iX_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_TvAv struct{ pgIJT }

func (pg_iX_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_iX_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_TvAp struct{ pgIJT }

func (pg_iX_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_iX_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_TpAv struct{ pgIJT }

func (*pg_iX_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_iX_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_TpAp struct{ pgIJT }

func (*pg_iX_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_iX_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_iX_TvCv struct{ pgIJT }

func (pg_iX_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iX_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_TvCp struct{ pgIJT }

func (pg_iX_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iX_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_TpCv struct{ pgIJT }

func (*pg_iX_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_iX_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_TpCp struct{ pgIJT }

func (*pg_iX_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_iX_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_AvCv struct{ pgIJT }

func (pg_iX_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iX_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_AvCp struct{ pgIJT }

func (pg_iX_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iX_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_ApCv struct{ pgIJT }

func (*pg_iX_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_iX_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_iX_ApCp struct{ pgIJT }

func (*pg_iX_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_iX_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_ struct{ pgVJ }
type pg_vJ__ struct {
	pgVJ
	X int
}
type pg_vJ_Jv struct{ pgVJ }

func (pg_vJ_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vJ_Jv_ struct {
	pgVJ
	X int
}

func (pg_vJ_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vJ_Jp struct{ pgVJ }

func (*pg_vJ_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vJ_Jp_ struct {
	pgVJ
	X int
}

func (*pg_vJ_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vJ_Tv struct{ pgVJ }

func (pg_vJ_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vJ_Tv_ struct {
	pgVJ
	X int
}

func (pg_vJ_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vJ_Tp struct{ pgVJ }

func (*pg_vJ_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vJ_Tp_ struct {
	pgVJ
	X int
}

func (*pg_vJ_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vJ_Av struct{ pgVJ }

func (pg_vJ_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_Av_ struct {
	pgVJ
	X int
}

func (pg_vJ_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_Ap struct{ pgVJ }

func (*pg_vJ_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_Ap_ struct {
	pgVJ
	X int
}

func (*pg_vJ_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_Cv struct{ pgVJ }

func (pg_vJ_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_Cv_ struct {
	pgVJ
	X int
}

func (pg_vJ_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_Cp struct{ pgVJ }

func (*pg_vJ_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_Cp_ struct {
	pgVJ
	X int
}

func (*pg_vJ_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_JvTv struct{ pgVJ }

func (pg_vJ_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vJ_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vJ_JvTp struct{ pgVJ }

func (pg_vJ_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_vJ_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vJ_JpTv struct{ pgVJ }

func (*pg_vJ_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vJ_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_vJ_JpTp struct{ pgVJ }

func (*pg_vJ_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vJ_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vJ_JvAv struct{ pgVJ }

func (pg_vJ_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_vJ_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_JvAp struct{ pgVJ }

func (pg_vJ_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_vJ_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_JpAv struct{ pgVJ }

func (*pg_vJ_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_vJ_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_JpAp struct{ pgVJ }

func (*pg_vJ_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_vJ_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_JvCv struct{ pgVJ }

func (pg_vJ_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vJ_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_JvCp struct{ pgVJ }

func (pg_vJ_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vJ_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_JpCv struct{ pgVJ }

func (*pg_vJ_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vJ_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_JpCp struct{ pgVJ }

func (*pg_vJ_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vJ_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_TvAv struct{ pgVJ }

func (pg_vJ_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_vJ_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_TvAp struct{ pgVJ }

func (pg_vJ_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_vJ_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_TpAv struct{ pgVJ }

func (*pg_vJ_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_vJ_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_TpAp struct{ pgVJ }

func (*pg_vJ_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_vJ_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vJ_TvCv struct{ pgVJ }

func (pg_vJ_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vJ_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_TvCp struct{ pgVJ }

func (pg_vJ_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vJ_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_TpCv struct{ pgVJ }

func (*pg_vJ_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vJ_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_TpCp struct{ pgVJ }

func (*pg_vJ_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vJ_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_AvCv struct{ pgVJ }

func (pg_vJ_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vJ_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_AvCp struct{ pgVJ }

func (pg_vJ_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vJ_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_ApCv struct{ pgVJ }

func (*pg_vJ_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vJ_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vJ_ApCp struct{ pgVJ }

func (*pg_vJ_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vJ_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_ struct{ pgPJ }
type pg_pJ__ struct {
	pgPJ
	X int
}
type pg_pJ_Jv struct{ pgPJ }

func (pg_pJ_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pJ_Jv_ struct {
	pgPJ
	X int
}

func (pg_pJ_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pJ_Jp struct{ pgPJ }

func (*pg_pJ_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pJ_Jp_ struct {
	pgPJ
	X int
}

func (*pg_pJ_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pJ_Tv struct{ pgPJ }

func (pg_pJ_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pJ_Tv_ struct {
	pgPJ
	X int
}

func (pg_pJ_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pJ_Tp struct{ pgPJ }

func (*pg_pJ_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pJ_Tp_ struct {
	pgPJ
	X int
}

func (*pg_pJ_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pJ_Av struct{ pgPJ }

func (pg_pJ_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_Av_ struct {
	pgPJ
	X int
}

func (pg_pJ_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_Ap struct{ pgPJ }

func (*pg_pJ_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_Ap_ struct {
	pgPJ
	X int
}

func (*pg_pJ_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_Cv struct{ pgPJ }

func (pg_pJ_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_Cv_ struct {
	pgPJ
	X int
}

func (pg_pJ_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_Cp struct{ pgPJ }

func (*pg_pJ_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_Cp_ struct {
	pgPJ
	X int
}

func (*pg_pJ_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_JvTv struct{ pgPJ }

func (pg_pJ_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pJ_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pJ_JvTp struct{ pgPJ }

func (pg_pJ_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_pJ_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pJ_JpTv struct{ pgPJ }

func (*pg_pJ_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pJ_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_pJ_JpTp struct{ pgPJ }

func (*pg_pJ_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pJ_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pJ_JvAv struct{ pgPJ }

func (pg_pJ_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_pJ_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_JvAp struct{ pgPJ }

func (pg_pJ_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_pJ_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_JpAv struct{ pgPJ }

func (*pg_pJ_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_pJ_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_JpAp struct{ pgPJ }

func (*pg_pJ_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_pJ_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_JvCv struct{ pgPJ }

func (pg_pJ_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pJ_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_JvCp struct{ pgPJ }

func (pg_pJ_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pJ_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_JpCv struct{ pgPJ }

func (*pg_pJ_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pJ_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_JpCp struct{ pgPJ }

func (*pg_pJ_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pJ_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_TvAv struct{ pgPJ }

func (pg_pJ_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_pJ_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_TvAp struct{ pgPJ }

func (pg_pJ_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_pJ_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_TpAv struct{ pgPJ }

func (*pg_pJ_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_pJ_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_TpAp struct{ pgPJ }

func (*pg_pJ_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_pJ_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pJ_TvCv struct{ pgPJ }

func (pg_pJ_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pJ_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_TvCp struct{ pgPJ }

func (pg_pJ_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pJ_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_TpCv struct{ pgPJ }

func (*pg_pJ_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pJ_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_TpCp struct{ pgPJ }

func (*pg_pJ_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pJ_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_AvCv struct{ pgPJ }

func (pg_pJ_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pJ_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_AvCp struct{ pgPJ }

func (pg_pJ_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pJ_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_ApCv struct{ pgPJ }

func (*pg_pJ_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pJ_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pJ_ApCp struct{ pgPJ }

func (*pg_pJ_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pJ_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_ struct{ *pgPJ }
type pg_qJ__ struct {
	*pgPJ
	X int
}
type pg_qJ_Jv struct{ *pgPJ }

func (pg_qJ_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qJ_Jv_ struct {
	*pgPJ
	X int
}

func (pg_qJ_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qJ_Jp struct{ *pgPJ }

func (*pg_qJ_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qJ_Jp_ struct {
	*pgPJ
	X int
}

func (*pg_qJ_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qJ_Tv struct{ *pgPJ }

func (pg_qJ_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qJ_Tv_ struct {
	*pgPJ
	X int
}

func (pg_qJ_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qJ_Tp struct{ *pgPJ }

func (*pg_qJ_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qJ_Tp_ struct {
	*pgPJ
	X int
}

func (*pg_qJ_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qJ_Av struct{ *pgPJ }

func (pg_qJ_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_Av_ struct {
	*pgPJ
	X int
}

func (pg_qJ_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_Ap struct{ *pgPJ }

func (*pg_qJ_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_Ap_ struct {
	*pgPJ
	X int
}

func (*pg_qJ_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_Cv struct{ *pgPJ }

func (pg_qJ_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_Cv_ struct {
	*pgPJ
	X int
}

func (pg_qJ_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_Cp struct{ *pgPJ }

func (*pg_qJ_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_Cp_ struct {
	*pgPJ
	X int
}

func (*pg_qJ_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_JvTv struct{ *pgPJ }

func (pg_qJ_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qJ_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qJ_JvTp struct{ *pgPJ }

func (pg_qJ_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_qJ_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qJ_JpTv struct{ *pgPJ }

func (*pg_qJ_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qJ_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_qJ_JpTp struct{ *pgPJ }

func (*pg_qJ_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qJ_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qJ_JvAv struct{ *pgPJ }

func (pg_qJ_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_qJ_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_JvAp struct{ *pgPJ }

func (pg_qJ_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_qJ_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_JpAv struct{ *pgPJ }

func (*pg_qJ_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_qJ_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_JpAp struct{ *pgPJ }

func (*pg_qJ_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_qJ_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_JvCv struct{ *pgPJ }

func (pg_qJ_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qJ_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_JvCp struct{ *pgPJ }

func (pg_qJ_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qJ_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_JpCv struct{ *pgPJ }

func (*pg_qJ_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qJ_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_JpCp struct{ *pgPJ }

func (*pg_qJ_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qJ_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_TvAv struct{ *pgPJ }

func (pg_qJ_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_qJ_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_TvAp struct{ *pgPJ }

func (pg_qJ_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_qJ_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_TpAv struct{ *pgPJ }

func (*pg_qJ_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_qJ_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_TpAp struct{ *pgPJ }

func (*pg_qJ_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_qJ_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qJ_TvCv struct{ *pgPJ }

func (pg_qJ_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qJ_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_TvCp struct{ *pgPJ }

func (pg_qJ_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qJ_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_TpCv struct{ *pgPJ }

func (*pg_qJ_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qJ_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_TpCp struct{ *pgPJ }

func (*pg_qJ_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qJ_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_AvCv struct{ *pgPJ }

func (pg_qJ_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qJ_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_AvCp struct{ *pgPJ }

func (pg_qJ_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qJ_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_ApCv struct{ *pgPJ }

func (*pg_qJ_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qJ_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qJ_ApCp struct{ *pgPJ }

func (*pg_qJ_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qJ_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_ struct{ pgVT }
type pg_vT__ struct {
	pgVT
	X int
}
type pg_vT_Jv struct{ pgVT }

func (pg_vT_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vT_Jv_ struct {
	pgVT
	X int
}

func (pg_vT_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vT_Jp struct{ pgVT }

func (*pg_vT_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vT_Jp_ struct {
	pgVT
	X int
}

func (*pg_vT_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vT_Tv struct{ pgVT }

func (pg_vT_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vT_Tv_ struct {
	pgVT
	X int
}

func (pg_vT_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vT_Tp struct{ pgVT }

func (*pg_vT_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vT_Tp_ struct {
	pgVT
	X int
}

func (*pg_vT_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vT_Av struct{ pgVT }

func (pg_vT_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_Av_ struct {
	pgVT
	X int
}

func (pg_vT_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_Ap struct{ pgVT }

func (*pg_vT_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_Ap_ struct {
	pgVT
	X int
}

func (*pg_vT_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_Cv struct{ pgVT }

func (pg_vT_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_Cv_ struct {
	pgVT
	X int
}

func (pg_vT_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_Cp struct{ pgVT }

func (*pg_vT_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_Cp_ struct {
	pgVT
	X int
}

func (*pg_vT_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_JvTv struct{ pgVT }

func (pg_vT_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vT_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vT_JvTp struct{ pgVT }

func (pg_vT_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_vT_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vT_JpTv struct{ pgVT }

func (*pg_vT_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vT_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_vT_JpTp struct{ pgVT }

func (*pg_vT_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vT_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vT_JvAv struct{ pgVT }

func (pg_vT_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_vT_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_JvAp struct{ pgVT }

func (pg_vT_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_vT_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_JpAv struct{ pgVT }

func (*pg_vT_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_vT_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_JpAp struct{ pgVT }

func (*pg_vT_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_vT_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_JvCv struct{ pgVT }

func (pg_vT_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vT_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_JvCp struct{ pgVT }

func (pg_vT_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vT_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_JpCv struct{ pgVT }

func (*pg_vT_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vT_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_JpCp struct{ pgVT }

func (*pg_vT_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vT_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_TvAv struct{ pgVT }

func (pg_vT_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_vT_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_TvAp struct{ pgVT }

func (pg_vT_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_vT_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_TpAv struct{ pgVT }

func (*pg_vT_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_vT_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_TpAp struct{ pgVT }

func (*pg_vT_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_vT_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vT_TvCv struct{ pgVT }

func (pg_vT_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vT_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_TvCp struct{ pgVT }

func (pg_vT_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vT_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_TpCv struct{ pgVT }

func (*pg_vT_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vT_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_TpCp struct{ pgVT }

func (*pg_vT_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vT_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_AvCv struct{ pgVT }

func (pg_vT_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vT_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_AvCp struct{ pgVT }

func (pg_vT_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vT_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_ApCv struct{ pgVT }

func (*pg_vT_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vT_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vT_ApCp struct{ pgVT }

func (*pg_vT_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vT_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_ struct{ pgPT }
type pg_pT__ struct {
	pgPT
	X int
}
type pg_pT_Jv struct{ pgPT }

func (pg_pT_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pT_Jv_ struct {
	pgPT
	X int
}

func (pg_pT_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pT_Jp struct{ pgPT }

func (*pg_pT_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pT_Jp_ struct {
	pgPT
	X int
}

func (*pg_pT_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pT_Tv struct{ pgPT }

func (pg_pT_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pT_Tv_ struct {
	pgPT
	X int
}

func (pg_pT_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pT_Tp struct{ pgPT }

func (*pg_pT_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pT_Tp_ struct {
	pgPT
	X int
}

func (*pg_pT_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pT_Av struct{ pgPT }

func (pg_pT_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_Av_ struct {
	pgPT
	X int
}

func (pg_pT_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_Ap struct{ pgPT }

func (*pg_pT_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_Ap_ struct {
	pgPT
	X int
}

func (*pg_pT_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_Cv struct{ pgPT }

func (pg_pT_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_Cv_ struct {
	pgPT
	X int
}

func (pg_pT_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_Cp struct{ pgPT }

func (*pg_pT_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_Cp_ struct {
	pgPT
	X int
}

func (*pg_pT_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_JvTv struct{ pgPT }

func (pg_pT_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pT_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pT_JvTp struct{ pgPT }

func (pg_pT_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_pT_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pT_JpTv struct{ pgPT }

func (*pg_pT_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pT_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_pT_JpTp struct{ pgPT }

func (*pg_pT_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pT_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pT_JvAv struct{ pgPT }

func (pg_pT_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_pT_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_JvAp struct{ pgPT }

func (pg_pT_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_pT_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_JpAv struct{ pgPT }

func (*pg_pT_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_pT_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_JpAp struct{ pgPT }

func (*pg_pT_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_pT_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_JvCv struct{ pgPT }

func (pg_pT_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pT_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_JvCp struct{ pgPT }

func (pg_pT_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pT_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_JpCv struct{ pgPT }

func (*pg_pT_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pT_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_JpCp struct{ pgPT }

func (*pg_pT_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pT_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_TvAv struct{ pgPT }

func (pg_pT_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_pT_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_TvAp struct{ pgPT }

func (pg_pT_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_pT_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_TpAv struct{ pgPT }

func (*pg_pT_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_pT_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_TpAp struct{ pgPT }

func (*pg_pT_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_pT_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pT_TvCv struct{ pgPT }

func (pg_pT_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pT_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_TvCp struct{ pgPT }

func (pg_pT_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pT_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_TpCv struct{ pgPT }

func (*pg_pT_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pT_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_TpCp struct{ pgPT }

func (*pg_pT_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pT_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_AvCv struct{ pgPT }

func (pg_pT_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pT_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_AvCp struct{ pgPT }

func (pg_pT_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pT_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_ApCv struct{ pgPT }

func (*pg_pT_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pT_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pT_ApCp struct{ pgPT }

func (*pg_pT_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pT_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_ struct{ *pgPT }
type pg_qT__ struct {
	*pgPT
	X int
}
type pg_qT_Jv struct{ *pgPT }

func (pg_qT_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qT_Jv_ struct {
	*pgPT
	X int
}

func (pg_qT_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qT_Jp struct{ *pgPT }

func (*pg_qT_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qT_Jp_ struct {
	*pgPT
	X int
}

func (*pg_qT_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qT_Tv struct{ *pgPT }

func (pg_qT_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qT_Tv_ struct {
	*pgPT
	X int
}

func (pg_qT_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qT_Tp struct{ *pgPT }

func (*pg_qT_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qT_Tp_ struct {
	*pgPT
	X int
}

func (*pg_qT_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qT_Av struct{ *pgPT }

func (pg_qT_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_Av_ struct {
	*pgPT
	X int
}

func (pg_qT_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_Ap struct{ *pgPT }

func (*pg_qT_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_Ap_ struct {
	*pgPT
	X int
}

func (*pg_qT_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_Cv struct{ *pgPT }

func (pg_qT_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_Cv_ struct {
	*pgPT
	X int
}

func (pg_qT_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_Cp struct{ *pgPT }

func (*pg_qT_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_Cp_ struct {
	*pgPT
	X int
}

func (*pg_qT_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_JvTv struct{ *pgPT }

func (pg_qT_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qT_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qT_JvTp struct{ *pgPT }

func (pg_qT_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_qT_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qT_JpTv struct{ *pgPT }

func (*pg_qT_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qT_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_qT_JpTp struct{ *pgPT }

func (*pg_qT_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qT_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qT_JvAv struct{ *pgPT }

func (pg_qT_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_qT_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_JvAp struct{ *pgPT }

func (pg_qT_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_qT_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_JpAv struct{ *pgPT }

func (*pg_qT_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_qT_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_JpAp struct{ *pgPT }

func (*pg_qT_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_qT_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_JvCv struct{ *pgPT }

func (pg_qT_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qT_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_JvCp struct{ *pgPT }

func (pg_qT_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qT_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_JpCv struct{ *pgPT }

func (*pg_qT_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qT_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_JpCp struct{ *pgPT }

func (*pg_qT_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qT_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_TvAv struct{ *pgPT }

func (pg_qT_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_qT_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_TvAp struct{ *pgPT }

func (pg_qT_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_qT_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_TpAv struct{ *pgPT }

func (*pg_qT_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_qT_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_TpAp struct{ *pgPT }

func (*pg_qT_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_qT_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qT_TvCv struct{ *pgPT }

func (pg_qT_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qT_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_TvCp struct{ *pgPT }

func (pg_qT_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qT_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_TpCv struct{ *pgPT }

func (*pg_qT_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qT_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_TpCp struct{ *pgPT }

func (*pg_qT_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qT_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_AvCv struct{ *pgPT }

func (pg_qT_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qT_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_AvCp struct{ *pgPT }

func (pg_qT_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qT_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_ApCv struct{ *pgPT }

func (*pg_qT_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qT_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qT_ApCp struct{ *pgPT }

func (*pg_qT_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qT_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_ struct{ pgVA }
type pg_vA__ struct {
	pgVA
	X int
}
type pg_vA_Jv struct{ pgVA }

func (pg_vA_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vA_Jv_ struct {
	pgVA
	X int
}

func (pg_vA_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vA_Jp struct{ pgVA }

func (*pg_vA_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vA_Jp_ struct {
	pgVA
	X int
}

func (*pg_vA_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vA_Tv struct{ pgVA }

func (pg_vA_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vA_Tv_ struct {
	pgVA
	X int
}

func (pg_vA_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vA_Tp struct{ pgVA }

func (*pg_vA_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vA_Tp_ struct {
	pgVA
	X int
}

func (*pg_vA_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vA_Av struct{ pgVA }

func (pg_vA_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_Av_ struct {
	pgVA
	X int
}

func (pg_vA_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_Ap struct{ pgVA }

func (*pg_vA_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_Ap_ struct {
	pgVA
	X int
}

func (*pg_vA_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_Cv struct{ pgVA }

func (pg_vA_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_Cv_ struct {
	pgVA
	X int
}

func (pg_vA_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_Cp struct{ pgVA }

func (*pg_vA_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_Cp_ struct {
	pgVA
	X int
}

func (*pg_vA_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_JvTv struct{ pgVA }

func (pg_vA_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vA_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vA_JvTp struct{ pgVA }

func (pg_vA_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_vA_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vA_JpTv struct{ pgVA }

func (*pg_vA_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vA_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_vA_JpTp struct{ pgVA }

func (*pg_vA_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vA_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vA_JvAv struct{ pgVA }

func (pg_vA_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_vA_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_JvAp struct{ pgVA }

func (pg_vA_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_vA_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_JpAv struct{ pgVA }

func (*pg_vA_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_vA_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_JpAp struct{ pgVA }

func (*pg_vA_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_vA_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_JvCv struct{ pgVA }

func (pg_vA_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vA_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_JvCp struct{ pgVA }

func (pg_vA_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vA_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_JpCv struct{ pgVA }

func (*pg_vA_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vA_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_JpCp struct{ pgVA }

func (*pg_vA_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vA_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_TvAv struct{ pgVA }

func (pg_vA_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_vA_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_TvAp struct{ pgVA }

func (pg_vA_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_vA_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_TpAv struct{ pgVA }

func (*pg_vA_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_vA_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_TpAp struct{ pgVA }

func (*pg_vA_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_vA_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vA_TvCv struct{ pgVA }

func (pg_vA_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vA_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_TvCp struct{ pgVA }

func (pg_vA_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vA_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_TpCv struct{ pgVA }

func (*pg_vA_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vA_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_TpCp struct{ pgVA }

func (*pg_vA_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vA_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_AvCv struct{ pgVA }

func (pg_vA_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vA_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_AvCp struct{ pgVA }

func (pg_vA_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vA_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_ApCv struct{ pgVA }

func (*pg_vA_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vA_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vA_ApCp struct{ pgVA }

func (*pg_vA_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vA_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_ struct{ pgPA }
type pg_pA__ struct {
	pgPA
	X int
}
type pg_pA_Jv struct{ pgPA }

func (pg_pA_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pA_Jv_ struct {
	pgPA
	X int
}

func (pg_pA_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pA_Jp struct{ pgPA }

func (*pg_pA_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pA_Jp_ struct {
	pgPA
	X int
}

func (*pg_pA_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pA_Tv struct{ pgPA }

func (pg_pA_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pA_Tv_ struct {
	pgPA
	X int
}

func (pg_pA_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pA_Tp struct{ pgPA }

func (*pg_pA_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pA_Tp_ struct {
	pgPA
	X int
}

func (*pg_pA_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pA_Av struct{ pgPA }

func (pg_pA_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_Av_ struct {
	pgPA
	X int
}

func (pg_pA_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_Ap struct{ pgPA }

func (*pg_pA_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_Ap_ struct {
	pgPA
	X int
}

func (*pg_pA_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_Cv struct{ pgPA }

func (pg_pA_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_Cv_ struct {
	pgPA
	X int
}

func (pg_pA_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_Cp struct{ pgPA }

func (*pg_pA_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_Cp_ struct {
	pgPA
	X int
}

func (*pg_pA_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_JvTv struct{ pgPA }

func (pg_pA_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pA_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pA_JvTp struct{ pgPA }

func (pg_pA_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_pA_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pA_JpTv struct{ pgPA }

func (*pg_pA_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pA_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_pA_JpTp struct{ pgPA }

func (*pg_pA_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pA_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pA_JvAv struct{ pgPA }

func (pg_pA_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_pA_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_JvAp struct{ pgPA }

func (pg_pA_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_pA_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_JpAv struct{ pgPA }

func (*pg_pA_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_pA_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_JpAp struct{ pgPA }

func (*pg_pA_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_pA_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_JvCv struct{ pgPA }

func (pg_pA_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pA_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_JvCp struct{ pgPA }

func (pg_pA_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pA_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_JpCv struct{ pgPA }

func (*pg_pA_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pA_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_JpCp struct{ pgPA }

func (*pg_pA_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pA_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_TvAv struct{ pgPA }

func (pg_pA_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_pA_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_TvAp struct{ pgPA }

func (pg_pA_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_pA_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_TpAv struct{ pgPA }

func (*pg_pA_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_pA_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_TpAp struct{ pgPA }

func (*pg_pA_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_pA_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pA_TvCv struct{ pgPA }

func (pg_pA_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pA_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_TvCp struct{ pgPA }

func (pg_pA_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pA_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_TpCv struct{ pgPA }

func (*pg_pA_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pA_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_TpCp struct{ pgPA }

func (*pg_pA_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pA_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_AvCv struct{ pgPA }

func (pg_pA_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pA_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_AvCp struct{ pgPA }

func (pg_pA_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pA_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_ApCv struct{ pgPA }

func (*pg_pA_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pA_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pA_ApCp struct{ pgPA }

func (*pg_pA_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pA_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_ struct{ *pgPA }
type pg_qA__ struct {
	*pgPA
	X int
}
type pg_qA_Jv struct{ *pgPA }

func (pg_qA_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qA_Jv_ struct {
	*pgPA
	X int
}

func (pg_qA_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qA_Jp struct{ *pgPA }

func (*pg_qA_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qA_Jp_ struct {
	*pgPA
	X int
}

func (*pg_qA_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qA_Tv struct{ *pgPA }

func (pg_qA_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qA_Tv_ struct {
	*pgPA
	X int
}

func (pg_qA_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qA_Tp struct{ *pgPA }

func (*pg_qA_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qA_Tp_ struct {
	*pgPA
	X int
}

func (*pg_qA_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qA_Av struct{ *pgPA }

func (pg_qA_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_Av_ struct {
	*pgPA
	X int
}

func (pg_qA_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_Ap struct{ *pgPA }

func (*pg_qA_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_Ap_ struct {
	*pgPA
	X int
}

func (*pg_qA_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_Cv struct{ *pgPA }

func (pg_qA_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_Cv_ struct {
	*pgPA
	X int
}

func (pg_qA_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_Cp struct{ *pgPA }

func (*pg_qA_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_Cp_ struct {
	*pgPA
	X int
}

func (*pg_qA_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_JvTv struct{ *pgPA }

func (pg_qA_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qA_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qA_JvTp struct{ *pgPA }

func (pg_qA_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_qA_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qA_JpTv struct{ *pgPA }

func (*pg_qA_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qA_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_qA_JpTp struct{ *pgPA }

func (*pg_qA_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qA_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qA_JvAv struct{ *pgPA }

func (pg_qA_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_qA_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_JvAp struct{ *pgPA }

func (pg_qA_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_qA_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_JpAv struct{ *pgPA }

func (*pg_qA_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_qA_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_JpAp struct{ *pgPA }

func (*pg_qA_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_qA_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_JvCv struct{ *pgPA }

func (pg_qA_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qA_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_JvCp struct{ *pgPA }

func (pg_qA_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qA_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_JpCv struct{ *pgPA }

func (*pg_qA_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qA_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_JpCp struct{ *pgPA }

func (*pg_qA_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qA_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_TvAv struct{ *pgPA }

func (pg_qA_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_qA_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_TvAp struct{ *pgPA }

func (pg_qA_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_qA_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_TpAv struct{ *pgPA }

func (*pg_qA_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_qA_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_TpAp struct{ *pgPA }

func (*pg_qA_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_qA_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qA_TvCv struct{ *pgPA }

func (pg_qA_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qA_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_TvCp struct{ *pgPA }

func (pg_qA_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qA_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_TpCv struct{ *pgPA }

func (*pg_qA_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qA_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_TpCp struct{ *pgPA }

func (*pg_qA_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qA_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_AvCv struct{ *pgPA }

func (pg_qA_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qA_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_AvCp struct{ *pgPA }

func (pg_qA_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qA_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_ApCv struct{ *pgPA }

func (*pg_qA_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qA_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qA_ApCp struct{ *pgPA }

func (*pg_qA_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qA_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_ struct{ pgVC }
type pg_vC__ struct {
	pgVC
	X int
}
type pg_vC_Jv struct{ pgVC }

func (pg_vC_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vC_Jv_ struct {
	pgVC
	X int
}

func (pg_vC_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vC_Jp struct{ pgVC }

func (*pg_vC_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vC_Jp_ struct {
	pgVC
	X int
}

func (*pg_vC_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_vC_Tv struct{ pgVC }

func (pg_vC_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vC_Tv_ struct {
	pgVC
	X int
}

func (pg_vC_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vC_Tp struct{ pgVC }

func (*pg_vC_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vC_Tp_ struct {
	pgVC
	X int
}

func (*pg_vC_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vC_Av struct{ pgVC }

func (pg_vC_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_Av_ struct {
	pgVC
	X int
}

func (pg_vC_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_Ap struct{ pgVC }

func (*pg_vC_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_Ap_ struct {
	pgVC
	X int
}

func (*pg_vC_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_Cv struct{ pgVC }

func (pg_vC_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_Cv_ struct {
	pgVC
	X int
}

func (pg_vC_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_Cp struct{ pgVC }

func (*pg_vC_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_Cp_ struct {
	pgVC
	X int
}

func (*pg_vC_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_JvTv struct{ pgVC }

func (pg_vC_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vC_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vC_JvTp struct{ pgVC }

func (pg_vC_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_vC_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vC_JpTv struct{ pgVC }

func (*pg_vC_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vC_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_vC_JpTp struct{ pgVC }

func (*pg_vC_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vC_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_vC_JvAv struct{ pgVC }

func (pg_vC_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_vC_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_JvAp struct{ pgVC }

func (pg_vC_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_vC_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_JpAv struct{ pgVC }

func (*pg_vC_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_vC_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_JpAp struct{ pgVC }

func (*pg_vC_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_vC_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_JvCv struct{ pgVC }

func (pg_vC_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vC_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_JvCp struct{ pgVC }

func (pg_vC_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vC_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_JpCv struct{ pgVC }

func (*pg_vC_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_vC_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_JpCp struct{ pgVC }

func (*pg_vC_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_vC_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_TvAv struct{ pgVC }

func (pg_vC_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_vC_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_TvAp struct{ pgVC }

func (pg_vC_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_vC_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_TpAv struct{ pgVC }

func (*pg_vC_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_vC_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_TpAp struct{ pgVC }

func (*pg_vC_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_vC_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_vC_TvCv struct{ pgVC }

func (pg_vC_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vC_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_TvCp struct{ pgVC }

func (pg_vC_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vC_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_TpCv struct{ pgVC }

func (*pg_vC_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_vC_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_TpCp struct{ pgVC }

func (*pg_vC_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_vC_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_AvCv struct{ pgVC }

func (pg_vC_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vC_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_AvCp struct{ pgVC }

func (pg_vC_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vC_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_ApCv struct{ pgVC }

func (*pg_vC_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_vC_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_vC_ApCp struct{ pgVC }

func (*pg_vC_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_vC_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_ struct{ pgPC }
type pg_pC__ struct {
	pgPC
	X int
}
type pg_pC_Jv struct{ pgPC }

func (pg_pC_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pC_Jv_ struct {
	pgPC
	X int
}

func (pg_pC_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pC_Jp struct{ pgPC }

func (*pg_pC_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pC_Jp_ struct {
	pgPC
	X int
}

func (*pg_pC_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_pC_Tv struct{ pgPC }

func (pg_pC_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pC_Tv_ struct {
	pgPC
	X int
}

func (pg_pC_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pC_Tp struct{ pgPC }

func (*pg_pC_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pC_Tp_ struct {
	pgPC
	X int
}

func (*pg_pC_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pC_Av struct{ pgPC }

func (pg_pC_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_Av_ struct {
	pgPC
	X int
}

func (pg_pC_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_Ap struct{ pgPC }

func (*pg_pC_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_Ap_ struct {
	pgPC
	X int
}

func (*pg_pC_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_Cv struct{ pgPC }

func (pg_pC_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_Cv_ struct {
	pgPC
	X int
}

func (pg_pC_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_Cp struct{ pgPC }

func (*pg_pC_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_Cp_ struct {
	pgPC
	X int
}

func (*pg_pC_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_JvTv struct{ pgPC }

func (pg_pC_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pC_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pC_JvTp struct{ pgPC }

func (pg_pC_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_pC_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pC_JpTv struct{ pgPC }

func (*pg_pC_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pC_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_pC_JpTp struct{ pgPC }

func (*pg_pC_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pC_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_pC_JvAv struct{ pgPC }

func (pg_pC_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_pC_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_JvAp struct{ pgPC }

func (pg_pC_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_pC_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_JpAv struct{ pgPC }

func (*pg_pC_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_pC_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_JpAp struct{ pgPC }

func (*pg_pC_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_pC_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_JvCv struct{ pgPC }

func (pg_pC_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pC_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_JvCp struct{ pgPC }

func (pg_pC_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pC_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_JpCv struct{ pgPC }

func (*pg_pC_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_pC_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_JpCp struct{ pgPC }

func (*pg_pC_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_pC_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_TvAv struct{ pgPC }

func (pg_pC_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_pC_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_TvAp struct{ pgPC }

func (pg_pC_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_pC_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_TpAv struct{ pgPC }

func (*pg_pC_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_pC_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_TpAp struct{ pgPC }

func (*pg_pC_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_pC_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_pC_TvCv struct{ pgPC }

func (pg_pC_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pC_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_TvCp struct{ pgPC }

func (pg_pC_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pC_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_TpCv struct{ pgPC }

func (*pg_pC_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_pC_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_TpCp struct{ pgPC }

func (*pg_pC_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_pC_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_AvCv struct{ pgPC }

func (pg_pC_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pC_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_AvCp struct{ pgPC }

func (pg_pC_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pC_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_ApCv struct{ pgPC }

func (*pg_pC_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_pC_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_pC_ApCp struct{ pgPC }

func (*pg_pC_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_pC_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_ struct{ *pgPC }
type pg_qC__ struct {
	*pgPC
	X int
}
type pg_qC_Jv struct{ *pgPC }

func (pg_qC_Jv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qC_Jv_ struct {
	*pgPC
	X int
}

func (pg_qC_Jv_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qC_Jp struct{ *pgPC }

func (*pg_qC_Jp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qC_Jp_ struct {
	*pgPC
	X int
}

func (*pg_qC_Jp_) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }

type pg_qC_Tv struct{ *pgPC }

func (pg_qC_Tv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qC_Tv_ struct {
	*pgPC
	X int
}

func (pg_qC_Tv_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qC_Tp struct{ *pgPC }

func (*pg_qC_Tp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qC_Tp_ struct {
	*pgPC
	X int
}

func (*pg_qC_Tp_) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qC_Av struct{ *pgPC }

func (pg_qC_Av) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_Av_ struct {
	*pgPC
	X int
}

func (pg_qC_Av_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_Ap struct{ *pgPC }

func (*pg_qC_Ap) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_Ap_ struct {
	*pgPC
	X int
}

func (*pg_qC_Ap_) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_Cv struct{ *pgPC }

func (pg_qC_Cv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_Cv_ struct {
	*pgPC
	X int
}

func (pg_qC_Cv_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_Cp struct{ *pgPC }

func (*pg_qC_Cp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_Cp_ struct {
	*pgPC
	X int
}

func (*pg_qC_Cp_) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_JvTv struct{ *pgPC }

func (pg_qC_JvTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qC_JvTv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qC_JvTp struct{ *pgPC }

func (pg_qC_JvTp) MarshalJSON() ([]byte, error)  { return []byte(`"ownJ"`), nil }
func (*pg_qC_JvTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qC_JpTv struct{ *pgPC }

func (*pg_qC_JpTv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qC_JpTv) MarshalText() ([]byte, error)  { return []byte(`ownT`), nil }

type pg_qC_JpTp struct{ *pgPC }

func (*pg_qC_JpTp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qC_JpTp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }

type pg_qC_JvAv struct{ *pgPC }

func (pg_qC_JvAv) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (pg_qC_JvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_JvAp struct{ *pgPC }

func (pg_qC_JvAp) MarshalJSON() ([]byte, error)         { return []byte(`"ownJ"`), nil }
func (*pg_qC_JvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_JpAv struct{ *pgPC }

func (*pg_qC_JpAv) MarshalJSON() ([]byte, error)       { return []byte(`"ownJ"`), nil }
func (pg_qC_JpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_JpAp struct{ *pgPC }

func (*pg_qC_JpAp) MarshalJSON() ([]byte, error)        { return []byte(`"ownJ"`), nil }
func (*pg_qC_JpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_JvCv struct{ *pgPC }

func (pg_qC_JvCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qC_JvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_JvCp struct{ *pgPC }

func (pg_qC_JvCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qC_JvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_JpCv struct{ *pgPC }

func (*pg_qC_JpCv) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (pg_qC_JpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_JpCp struct{ *pgPC }

func (*pg_qC_JpCp) MarshalJSON() ([]byte, error) { return []byte(`"ownJ"`), nil }
func (*pg_qC_JpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_TvAv struct{ *pgPC }

func (pg_qC_TvAv) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (pg_qC_TvAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_TvAp struct{ *pgPC }

func (pg_qC_TvAp) MarshalText() ([]byte, error)         { return []byte(`ownT`), nil }
func (*pg_qC_TvAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_TpAv struct{ *pgPC }

func (*pg_qC_TpAv) MarshalText() ([]byte, error)       { return []byte(`ownT`), nil }
func (pg_qC_TpAv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_TpAp struct{ *pgPC }

func (*pg_qC_TpAp) MarshalText() ([]byte, error)        { return []byte(`ownT`), nil }
func (*pg_qC_TpAp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }

type pg_qC_TvCv struct{ *pgPC }

func (pg_qC_TvCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qC_TvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_TvCp struct{ *pgPC }

func (pg_qC_TvCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qC_TvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_TpCv struct{ *pgPC }

func (*pg_qC_TpCv) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (pg_qC_TpCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_TpCp struct{ *pgPC }

func (*pg_qC_TpCp) MarshalText() ([]byte, error) { return []byte(`ownT`), nil }
func (*pg_qC_TpCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_AvCv struct{ *pgPC }

func (pg_qC_AvCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qC_AvCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_AvCp struct{ *pgPC }

func (pg_qC_AvCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qC_AvCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_ApCv struct{ *pgPC }

func (*pg_qC_ApCv) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (pg_qC_ApCv) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

type pg_qC_ApCp struct{ *pgPC }

func (*pg_qC_ApCp) AppendJSON(b []byte) ([]byte, error) { return append(b, `"ownA"`...), nil }
func (*pg_qC_ApCp) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, `"ownC"`...), nil
}

var pgTypes = []interface{}{new(pg_n__), new(pg_n_Jv_), new(pg_n_Jp_), new(pg_n_Tv_), new(pg_n_Tp_), new(pg_n_Av_), new(pg_n_Ap_), new(pg_n_Cv_), new(pg_n_Cp_), new(pg_iJ_), new(pg_iJ__), new(pg_iJ_Jv), new(pg_iJ_Jv_), new(pg_iJ_Jp), new(pg_iJ_Jp_), new(pg_iJ_Tv), new(pg_iJ_Tv_), new(pg_iJ_Tp), new(pg_iJ_Tp_), new(pg_iJ_Av), new(pg_iJ_Av_), new(pg_iJ_Ap), new(pg_iJ_Ap_), new(pg_iJ_Cv), new(pg_iJ_Cv_), new(pg_iJ_Cp), new(pg_iJ_Cp_), new(pg_iJ_JvTv), new(pg_iJ_JvTp), new(pg_iJ_JpTv), new(pg_iJ_JpTp), new(pg_iJ_JvAv), new(pg_iJ_JvAp), new(pg_iJ_JpAv), new(pg_iJ_JpAp), new(pg_iJ_JvCv), new(pg_iJ_JvCp), new(pg_iJ_JpCv), new(pg_iJ_JpCp), new(pg_iJ_TvAv), new(pg_iJ_TvAp), new(pg_iJ_TpAv), new(pg_iJ_TpAp), new(pg_iJ_TvCv), new(pg_iJ_TvCp), new(pg_iJ_TpCv), new(pg_iJ_TpCp), new(pg_iJ_AvCv), new(pg_iJ_AvCp), new(pg_iJ_ApCv), new(pg_iJ_ApCp), new(pg_iT_), new(pg_iT__), new(pg_iT_Jv), new(pg_iT_Jv_), new(pg_iT_Jp), new(pg_iT_Jp_), new(pg_iT_Tv), new(pg_iT_Tv_), new(pg_iT_Tp), new(pg_iT_Tp_), new(pg_iT_Av), new(pg_iT_Av_), new(pg_iT_Ap), new(pg_iT_Ap_), new(pg_iT_Cv), new(pg_iT_Cv_), new(pg_iT_Cp), new(pg_iT_Cp_), new(pg_iT_JvTv), new(pg_iT_JvTp), new(pg_iT_JpTv), new(pg_iT_JpTp), new(pg_iT_JvAv), new(pg_iT_JvAp), new(pg_iT_JpAv), new(pg_iT_JpAp), new(pg_iT_JvCv), new(pg_iT_JvCp), new(pg_iT_JpCv), new(pg_iT_JpCp), new(pg_iT_TvAv), new(pg_iT_TvAp), new(pg_iT_TpAv), new(pg_iT_TpAp), new(pg_iT_TvCv), new(pg_iT_TvCp), new(pg_iT_TpCv), new(pg_iT_TpCp), new(pg_iT_AvCv), new(pg_iT_AvCp), new(pg_iT_ApCv), new(pg_iT_ApCp), new(pg_iA_), new(pg_iA__), new(pg_iA_Jv), new(pg_iA_Jv_), new(pg_iA_Jp), new(pg_iA_Jp_), new(pg_iA_Tv), new(pg_iA_Tv_), new(pg_iA_Tp), new(pg_iA_Tp_), new(pg_iA_Av), new(pg_iA_Av_), new(pg_iA_Ap), new(pg_iA_Ap_), new(pg_iA_Cv), new(pg_iA_Cv_), new(pg_iA_Cp), new(pg_iA_Cp_), new(pg_iA_JvTv), new(pg_iA_JvTp), new(pg_iA_JpTv), new(pg_iA_JpTp), new(pg_iA_JvAv), new(pg_iA_JvAp), new(pg_iA_JpAv), new(pg_iA_JpAp), new(pg_iA_JvCv), new(pg_iA_JvCp), new(pg_iA_JpCv), new(pg_iA_JpCp), new(pg_iA_TvAv), new(pg_iA_TvAp), new(pg_iA_TpAv), new(pg_iA_TpAp), new(pg_iA_TvCv), new(pg_iA_TvCp), new(pg_iA_TpCv), new(pg_iA_TpCp), new(pg_iA_AvCv), new(pg_iA_AvCp), new(pg_iA_ApCv), new(pg_iA_ApCp), new(pg_iC_), new(pg_iC__), new(pg_iC_Jv), new(pg_iC_Jv_), new(pg_iC_Jp), new(pg_iC_Jp_), new(pg_iC_Tv), new(pg_iC_Tv_), new(pg_iC_Tp), new(pg_iC_Tp_), new(pg_iC_Av), new(pg_iC_Av_), new(pg_iC_Ap), new(pg_iC_Ap_), new(pg_iC_Cv), new(pg_iC_Cv_), new(pg_iC_Cp), new(pg_iC_Cp_), new(pg_iC_JvTv), new(pg_iC_JvTp), new(pg_iC_JpTv), new(pg_iC_JpTp), new(pg_iC_JvAv), new(pg_iC_JvAp), new(pg_iC_JpAv), new(pg_iC_JpAp), new(pg_iC_JvCv), new(pg_iC_JvCp), new(pg_iC_JpCv), new(pg_iC_JpCp), new(pg_iC_TvAv), new(pg_iC_TvAp), new(pg_iC_TpAv), new(pg_iC_TpAp), new(pg_iC_TvCv), new(pg_iC_TvCp), new(pg_iC_TpCv), new(pg_iC_TpCp), new(pg_iC_AvCv), new(pg_iC_AvCp), new(pg_iC_ApCv), new(pg_iC_ApCp), new(pg_iX_), new(pg_iX__), new(pg_iX_Jv), new(pg_iX_Jv_), new(pg_iX_Jp), new(pg_iX_Jp_), new(pg_iX_Tv), new(pg_iX_Tv_), new(pg_iX_Tp), new(pg_iX_Tp_), new(pg_iX_Av), new(pg_iX_Av_), new(pg_iX_Ap), new(pg_iX_Ap_), new(pg_iX_Cv), new(pg_iX_Cv_), new(pg_iX_Cp), new(pg_iX_Cp_), new(pg_iX_JvTv), new(pg_iX_JvTp), new(pg_iX_JpTv), new(pg_iX_JpTp), new(pg_iX_JvAv), new(pg_iX_JvAp), new(pg_iX_JpAv), new(pg_iX_JpAp), new(pg_iX_JvCv), new(pg_iX_JvCp), new(pg_iX_JpCv), new(pg_iX_JpCp), new(pg_iX_TvAv), new(pg_iX_TvAp), new(pg_iX_TpAv), new(pg_iX_TpAp), new(pg_iX_TvCv), new(pg_iX_TvCp), new(pg_iX_TpCv), new(pg_iX_TpCp), new(pg_iX_AvCv), new(pg_iX_AvCp), new(pg_iX_ApCv), new(pg_iX_ApCp), new(pg_vJ_), new(pg_vJ__), new(pg_vJ_Jv), new(pg_vJ_Jv_), new(pg_vJ_Jp), new(pg_vJ_Jp_), new(pg_vJ_Tv), new(pg_vJ_Tv_), new(pg_vJ_Tp), new(pg_vJ_Tp_), new(pg_vJ_Av), new(pg_vJ_Av_), new(pg_vJ_Ap), new(pg_vJ_Ap_), new(pg_vJ_Cv), new(pg_vJ_Cv_), new(pg_vJ_Cp), new(pg_vJ_Cp_), new(pg_vJ_JvTv), new(pg_vJ_JvTp), new(pg_vJ_JpTv), new(pg_vJ_JpTp), new(pg_vJ_JvAv), new(pg_vJ_JvAp), new(pg_vJ_JpAv), new(pg_vJ_JpAp), new(pg_vJ_JvCv), new(pg_vJ_JvCp), new(pg_vJ_JpCv), new(pg_vJ_JpCp), new(pg_vJ_TvAv), new(pg_vJ_TvAp), new(pg_vJ_TpAv), new(pg_vJ_TpAp), new(pg_vJ_TvCv), new(pg_vJ_TvCp), new(pg_vJ_TpCv), new(pg_vJ_TpCp), new(pg_vJ_AvCv), new(pg_vJ_AvCp), new(pg_vJ_ApCv), new(pg_vJ_ApCp), new(pg_pJ_), new(pg_pJ__), new(pg_pJ_Jv), new(pg_pJ_Jv_), new(pg_pJ_Jp), new(pg_pJ_Jp_), new(pg_pJ_Tv), new(pg_pJ_Tv_), new(pg_pJ_Tp), new(pg_pJ_Tp_), new(pg_pJ_Av), new(pg_pJ_Av_), new(pg_pJ_Ap), new(pg_pJ_Ap_), new(pg_pJ_Cv), new(pg_pJ_Cv_), new(pg_pJ_Cp), new(pg_pJ_Cp_), new(pg_pJ_JvTv), new(pg_pJ_JvTp), new(pg_pJ_JpTv), new(pg_pJ_JpTp), new(pg_pJ_JvAv), new(pg_pJ_JvAp), new(pg_pJ_JpAv), new(pg_pJ_JpAp), new(pg_pJ_JvCv), new(pg_pJ_JvCp), new(pg_pJ_JpCv), new(pg_pJ_JpCp), new(pg_pJ_TvAv), new(pg_pJ_TvAp), new(pg_pJ_TpAv), new(pg_pJ_TpAp), new(pg_pJ_TvCv), new(pg_pJ_TvCp), new(pg_pJ_TpCv), new(pg_pJ_TpCp), new(pg_pJ_AvCv), new(pg_pJ_AvCp), new(pg_pJ_ApCv), new(pg_pJ_ApCp), new(pg_qJ_), new(pg_qJ__), new(pg_qJ_Jv), new(pg_qJ_Jv_), new(pg_qJ_Jp), new(pg_qJ_Jp_), new(pg_qJ_Tv), new(pg_qJ_Tv_), new(pg_qJ_Tp), new(pg_qJ_Tp_), new(pg_qJ_Av), new(pg_qJ_Av_), new(pg_qJ_Ap), new(pg_qJ_Ap_), new(pg_qJ_Cv), new(pg_qJ_Cv_), new(pg_qJ_Cp), new(pg_qJ_Cp_), new(pg_qJ_JvTv), new(pg_qJ_JvTp), new(pg_qJ_JpTv), new(pg_qJ_JpTp), new(pg_qJ_JvAv), new(pg_qJ_JvAp), new(pg_qJ_JpAv), new(pg_qJ_JpAp), new(pg_qJ_JvCv), new(pg_qJ_JvCp), new(pg_qJ_JpCv), new(pg_qJ_JpCp), new(pg_qJ_TvAv), new(pg_qJ_TvAp), new(pg_qJ_TpAv), new(pg_qJ_TpAp), new(pg_qJ_TvCv), new(pg_qJ_TvCp), new(pg_qJ_TpCv), new(pg_qJ_TpCp), new(pg_qJ_AvCv), new(pg_qJ_AvCp), new(pg_qJ_ApCv), new(pg_qJ_ApCp), new(pg_vT_), new(pg_vT__), new(pg_vT_Jv), new(pg_vT_Jv_), new(pg_vT_Jp), new(pg_vT_Jp_), new(pg_vT_Tv), new(pg_vT_Tv_), new(pg_vT_Tp), new(pg_vT_Tp_), new(pg_vT_Av), new(pg_vT_Av_), new(pg_vT_Ap), new(pg_vT_Ap_), new(pg_vT_Cv), new(pg_vT_Cv_), new(pg_vT_Cp), new(pg_vT_Cp_), new(pg_vT_JvTv), new(pg_vT_JvTp), new(pg_vT_JpTv), new(pg_vT_JpTp), new(pg_vT_JvAv), new(pg_vT_JvAp), new(pg_vT_JpAv), new(pg_vT_JpAp), new(pg_vT_JvCv), new(pg_vT_JvCp), new(pg_vT_JpCv), new(pg_vT_JpCp), new(pg_vT_TvAv), new(pg_vT_TvAp), new(pg_vT_TpAv), new(pg_vT_TpAp), new(pg_vT_TvCv), new(pg_vT_TvCp), new(pg_vT_TpCv), new(pg_vT_TpCp), new(pg_vT_AvCv), new(pg_vT_AvCp), new(pg_vT_ApCv), new(pg_vT_ApCp), new(pg_pT_), new(pg_pT__), new(pg_pT_Jv), new(pg_pT_Jv_), new(pg_pT_Jp), new(pg_pT_Jp_), new(pg_pT_Tv), new(pg_pT_Tv_), new(pg_pT_Tp), new(pg_pT_Tp_), new(pg_pT_Av), new(pg_pT_Av_), new(pg_pT_Ap), new(pg_pT_Ap_), new(pg_pT_Cv), new(pg_pT_Cv_), new(pg_pT_Cp), new(pg_pT_Cp_), new(pg_pT_JvTv), new(pg_pT_JvTp), new(pg_pT_JpTv), new(pg_pT_JpTp), new(pg_pT_JvAv), new(pg_pT_JvAp), new(pg_pT_JpAv), new(pg_pT_JpAp), new(pg_pT_JvCv), new(pg_pT_JvCp), new(pg_pT_JpCv), new(pg_pT_JpCp), new(pg_pT_TvAv), new(pg_pT_TvAp), new(pg_pT_TpAv), new(pg_pT_TpAp), new(pg_pT_TvCv), new(pg_pT_TvCp), new(pg_pT_TpCv), new(pg_pT_TpCp), new(pg_pT_AvCv), new(pg_pT_AvCp), new(pg_pT_ApCv), new(pg_pT_ApCp), new(pg_qT_), new(pg_qT__), new(pg_qT_Jv), new(pg_qT_Jv_), new(pg_qT_Jp), new(pg_qT_Jp_), new(pg_qT_Tv), new(pg_qT_Tv_), new(pg_qT_Tp), new(pg_qT_Tp_), new(pg_qT_Av), new(pg_qT_Av_), new(pg_qT_Ap), new(pg_qT_Ap_), new(pg_qT_Cv), new(pg_qT_Cv_), new(pg_qT_Cp), new(pg_qT_Cp_), new(pg_qT_JvTv), new(pg_qT_JvTp), new(pg_qT_JpTv), new(pg_qT_JpTp), new(pg_qT_JvAv), new(pg_qT_JvAp), new(pg_qT_JpAv), new(pg_qT_JpAp), new(pg_qT_JvCv), new(pg_qT_JvCp), new(pg_qT_JpCv), new(pg_qT_JpCp), new(pg_qT_TvAv), new(pg_qT_TvAp), new(pg_qT_TpAv), new(pg_qT_TpAp), new(pg_qT_TvCv), new(pg_qT_TvCp), new(pg_qT_TpCv), new(pg_qT_TpCp), new(pg_qT_AvCv), new(pg_qT_AvCp), new(pg_qT_ApCv), new(pg_qT_ApCp), new(pg_vA_), new(pg_vA__), new(pg_vA_Jv), new(pg_vA_Jv_), new(pg_vA_Jp), new(pg_vA_Jp_), new(pg_vA_Tv), new(pg_vA_Tv_), new(pg_vA_Tp), new(pg_vA_Tp_), new(pg_vA_Av), new(pg_vA_Av_), new(pg_vA_Ap), new(pg_vA_Ap_), new(pg_vA_Cv), new(pg_vA_Cv_), new(pg_vA_Cp), new(pg_vA_Cp_), new(pg_vA_JvTv), new(pg_vA_JvTp), new(pg_vA_JpTv), new(pg_vA_JpTp), new(pg_vA_JvAv), new(pg_vA_JvAp), new(pg_vA_JpAv), new(pg_vA_JpAp), new(pg_vA_JvCv), new(pg_vA_JvCp), new(pg_vA_JpCv), new(pg_vA_JpCp), new(pg_vA_TvAv), new(pg_vA_TvAp), new(pg_vA_TpAv), new(pg_vA_TpAp), new(pg_vA_TvCv), new(pg_vA_TvCp), new(pg_vA_TpCv), new(pg_vA_TpCp), new(pg_vA_AvCv), new(pg_vA_AvCp), new(pg_vA_ApCv), new(pg_vA_ApCp), new(pg_pA_), new(pg_pA__), new(pg_pA_Jv), new(pg_pA_Jv_), new(pg_pA_Jp), new(pg_pA_Jp_), new(pg_pA_Tv), new(pg_pA_Tv_), new(pg_pA_Tp), new(pg_pA_Tp_), new(pg_pA_Av), new(pg_pA_Av_), new(pg_pA_Ap), new(pg_pA_Ap_), new(pg_pA_Cv), new(pg_pA_Cv_), new(pg_pA_Cp), new(pg_pA_Cp_), new(pg_pA_JvTv), new(pg_pA_JvTp), new(pg_pA_JpTv), new(pg_pA_JpTp), new(pg_pA_JvAv), new(pg_pA_JvAp), new(pg_pA_JpAv), new(pg_pA_JpAp), new(pg_pA_JvCv), new(pg_pA_JvCp), new(pg_pA_JpCv), new(pg_pA_JpCp), new(pg_pA_TvAv), new(pg_pA_TvAp), new(pg_pA_TpAv), new(pg_pA_TpAp), new(pg_pA_TvCv), new(pg_pA_TvCp), new(pg_pA_TpCv), new(pg_pA_TpCp), new(pg_pA_AvCv), new(pg_pA_AvCp), new(pg_pA_ApCv), new(pg_pA_ApCp), new(pg_qA_), new(pg_qA__), new(pg_qA_Jv), new(pg_qA_Jv_), new(pg_qA_Jp), new(pg_qA_Jp_), new(pg_qA_Tv), new(pg_qA_Tv_), new(pg_qA_Tp), new(pg_qA_Tp_), new(pg_qA_Av), new(pg_qA_Av_), new(pg_qA_Ap), new(pg_qA_Ap_), new(pg_qA_Cv), new(pg_qA_Cv_), new(pg_qA_Cp), new(pg_qA_Cp_), new(pg_qA_JvTv), new(pg_qA_JvTp), new(pg_qA_JpTv), new(pg_qA_JpTp), new(pg_qA_JvAv), new(pg_qA_JvAp), new(pg_qA_JpAv), new(pg_qA_JpAp), new(pg_qA_JvCv), new(pg_qA_JvCp), new(pg_qA_JpCv), new(pg_qA_JpCp), new(pg_qA_TvAv), new(pg_qA_TvAp), new(pg_qA_TpAv), new(pg_qA_TpAp), new(pg_qA_TvCv), new(pg_qA_TvCp), new(pg_qA_TpCv), new(pg_qA_TpCp), new(pg_qA_AvCv), new(pg_qA_AvCp), new(pg_qA_ApCv), new(pg_qA_ApCp), new(pg_vC_), new(pg_vC__), new(pg_vC_Jv), new(pg_vC_Jv_), new(pg_vC_Jp), new(pg_vC_Jp_), new(pg_vC_Tv), new(pg_vC_Tv_), new(pg_vC_Tp), new(pg_vC_Tp_), new(pg_vC_Av), new(pg_vC_Av_), new(pg_vC_Ap), new(pg_vC_Ap_), new(pg_vC_Cv), new(pg_vC_Cv_), new(pg_vC_Cp), new(pg_vC_Cp_), new(pg_vC_JvTv), new(pg_vC_JvTp), new(pg_vC_JpTv), new(pg_vC_JpTp), new(pg_vC_JvAv), new(pg_vC_JvAp), new(pg_vC_JpAv), new(pg_vC_JpAp), new(pg_vC_JvCv), new(pg_vC_JvCp), new(pg_vC_JpCv), new(pg_vC_JpCp), new(pg_vC_TvAv), new(pg_vC_TvAp), new(pg_vC_TpAv), new(pg_vC_TpAp), new(pg_vC_TvCv), new(pg_vC_TvCp), new(pg_vC_TpCv), new(pg_vC_TpCp), new(pg_vC_AvCv), new(pg_vC_AvCp), new(pg_vC_ApCv), new(pg_vC_ApCp), new(pg_pC_), new(pg_pC__), new(pg_pC_Jv), new(pg_pC_Jv_), new(pg_pC_Jp), new(pg_pC_Jp_), new(pg_pC_Tv), new(pg_pC_Tv_), new(pg_pC_Tp), new(pg_pC_Tp_), new(pg_pC_Av), new(pg_pC_Av_), new(pg_pC_Ap), new(pg_pC_Ap_), new(pg_pC_Cv), new(pg_pC_Cv_), new(pg_pC_Cp), new(pg_pC_Cp_), new(pg_pC_JvTv), new(pg_pC_JvTp), new(pg_pC_JpTv), new(pg_pC_JpTp), new(pg_pC_JvAv), new(pg_pC_JvAp), new(pg_pC_JpAv), new(pg_pC_JpAp), new(pg_pC_JvCv), new(pg_pC_JvCp), new(pg_pC_JpCv), new(pg_pC_JpCp), new(pg_pC_TvAv), new(pg_pC_TvAp), new(pg_pC_TpAv), new(pg_pC_TpAp), new(pg_pC_TvCv), new(pg_pC_TvCp), new(pg_pC_TpCv), new(pg_pC_TpCp), new(pg_pC_AvCv), new(pg_pC_AvCp), new(pg_pC_ApCv), new(pg_pC_ApCp), new(pg_qC_), new(pg_qC__), new(pg_qC_Jv), new(pg_qC_Jv_), new(pg_qC_Jp), new(pg_qC_Jp_), new(pg_qC_Tv), new(pg_qC_Tv_), new(pg_qC_Tp), new(pg_qC_Tp_), new(pg_qC_Av), new(pg_qC_Av_), new(pg_qC_Ap), new(pg_qC_Ap_), new(pg_qC_Cv), new(pg_qC_Cv_), new(pg_qC_Cp), new(pg_qC_Cp_), new(pg_qC_JvTv), new(pg_qC_JvTp), new(pg_qC_JpTv), new(pg_qC_JpTp), new(pg_qC_JvAv), new(pg_qC_JvAp), new(pg_qC_JpAv), new(pg_qC_JpAp), new(pg_qC_JvCv), new(pg_qC_JvCp), new(pg_qC_JpCv), new(pg_qC_JpCp), new(pg_qC_TvAv), new(pg_qC_TvAp), new(pg_qC_TpAv), new(pg_qC_TpAp), new(pg_qC_TvCv), new(pg_qC_TvCp), new(pg_qC_TpCv), new(pg_qC_TpCp), new(pg_qC_AvCv), new(pg_qC_AvCp), new(pg_qC_ApCv), new(pg_qC_ApCp)}
