// Package vrand replaces math/rand.
package vrand

import "verif.local/mc/vrt"

func Uint32() uint32          { return vrt.Rand() }
func Uint64() uint64          { return uint64(vrt.Rand())<<32 | uint64(vrt.Rand()) }
func Int() int                { return int(Uint64() >> 1) }
func Int31() int32            { return int32(vrt.Rand() >> 1) }
func Int63() int64            { return int64(Uint64() >> 1) }
func Intn(n int) int          { return int(vrt.Rand()>>1) % n }
func IntN(n int) int          { return Intn(n) }
func Int31n(n int32) int32    { return int32(vrt.Rand()>>1) % n }
func Int63n(n int64) int64    { return Int63() % n }
func Uint32N(n uint32) uint32 { return vrt.Rand() % n }
func Float64() float64        { return float64(vrt.Rand()) / (1 << 32) }
func Float32() float32        { return float32(vrt.Rand()>>8) / (1 << 24) }
func Seed(int64)              {}
