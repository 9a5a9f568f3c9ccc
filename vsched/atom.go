package vsched

import "sync/atomic"

type AInt32 struct{ v atomic.Int32 }

func (x *AInt32) Load() int32                    { Point(pa); return x.v.Load() }
func (x *AInt32) Store(n int32)                  { Point(pa); x.v.Store(n) }
func (x *AInt32) Swap(n int32) int32             { Point(pa); return x.v.Swap(n) }
func (x *AInt32) Add(n int32) int32              { Point(pa); return x.v.Add(n) }
func (x *AInt32) And(n int32) int32              { Point(pa); return x.v.And(n) }
func (x *AInt32) Or(n int32) int32               { Point(pa); return x.v.Or(n) }
func (x *AInt32) CompareAndSwap(o, n int32) bool { Point(pa); return x.v.CompareAndSwap(o, n) }

func ALoadInt32(a *int32) int32          { Point(pa); return atomic.LoadInt32(a) }
func AStoreInt32(a *int32, n int32)      { Point(pa); atomic.StoreInt32(a, n) }
func ASwapInt32(a *int32, n int32) int32 { Point(pa); return atomic.SwapInt32(a, n) }
func AAddInt32(a *int32, n int32) int32  { Point(pa); return atomic.AddInt32(a, n) }
func AAndInt32(a *int32, n int32) int32  { Point(pa); return atomic.AndInt32(a, n) }
func AOrInt32(a *int32, n int32) int32   { Point(pa); return atomic.OrInt32(a, n) }
func ACompareAndSwapInt32(a *int32, o, n int32) bool {
	Point(pa)
	return atomic.CompareAndSwapInt32(a, o, n)
}

type AInt64 struct{ v atomic.Int64 }

func (x *AInt64) Load() int64                    { Point(pa); return x.v.Load() }
func (x *AInt64) Store(n int64)                  { Point(pa); x.v.Store(n) }
func (x *AInt64) Swap(n int64) int64             { Point(pa); return x.v.Swap(n) }
func (x *AInt64) Add(n int64) int64              { Point(pa); return x.v.Add(n) }
func (x *AInt64) And(n int64) int64              { Point(pa); return x.v.And(n) }
func (x *AInt64) Or(n int64) int64               { Point(pa); return x.v.Or(n) }
func (x *AInt64) CompareAndSwap(o, n int64) bool { Point(pa); return x.v.CompareAndSwap(o, n) }

func ALoadInt64(a *int64) int64          { Point(pa); return atomic.LoadInt64(a) }
func AStoreInt64(a *int64, n int64)      { Point(pa); atomic.StoreInt64(a, n) }
func ASwapInt64(a *int64, n int64) int64 { Point(pa); return atomic.SwapInt64(a, n) }
func AAddInt64(a *int64, n int64) int64  { Point(pa); return atomic.AddInt64(a, n) }
func AAndInt64(a *int64, n int64) int64  { Point(pa); return atomic.AndInt64(a, n) }
func AOrInt64(a *int64, n int64) int64   { Point(pa); return atomic.OrInt64(a, n) }
func ACompareAndSwapInt64(a *int64, o, n int64) bool {
	Point(pa)
	return atomic.CompareAndSwapInt64(a, o, n)
}

type AUint32 struct{ v atomic.Uint32 }

func (x *AUint32) Load() uint32                    { Point(pa); return x.v.Load() }
func (x *AUint32) Store(n uint32)                  { Point(pa); x.v.Store(n) }
func (x *AUint32) Swap(n uint32) uint32            { Point(pa); return x.v.Swap(n) }
func (x *AUint32) Add(n uint32) uint32             { Point(pa); return x.v.Add(n) }
func (x *AUint32) And(n uint32) uint32             { Point(pa); return x.v.And(n) }
func (x *AUint32) Or(n uint32) uint32              { Point(pa); return x.v.Or(n) }
func (x *AUint32) CompareAndSwap(o, n uint32) bool { Point(pa); return x.v.CompareAndSwap(o, n) }

func ALoadUint32(a *uint32) uint32           { Point(pa); return atomic.LoadUint32(a) }
func AStoreUint32(a *uint32, n uint32)       { Point(pa); atomic.StoreUint32(a, n) }
func ASwapUint32(a *uint32, n uint32) uint32 { Point(pa); return atomic.SwapUint32(a, n) }
func AAddUint32(a *uint32, n uint32) uint32  { Point(pa); return atomic.AddUint32(a, n) }
func AAndUint32(a *uint32, n uint32) uint32  { Point(pa); return atomic.AndUint32(a, n) }
func AOrUint32(a *uint32, n uint32) uint32   { Point(pa); return atomic.OrUint32(a, n) }
func ACompareAndSwapUint32(a *uint32, o, n uint32) bool {
	Point(pa)
	return atomic.CompareAndSwapUint32(a, o, n)
}

type AUint64 struct{ v atomic.Uint64 }

func (x *AUint64) Load() uint64                    { Point(pa); return x.v.Load() }
func (x *AUint64) Store(n uint64)                  { Point(pa); x.v.Store(n) }
func (x *AUint64) Swap(n uint64) uint64            { Point(pa); return x.v.Swap(n) }
func (x *AUint64) Add(n uint64) uint64             { Point(pa); return x.v.Add(n) }
func (x *AUint64) And(n uint64) uint64             { Point(pa); return x.v.And(n) }
func (x *AUint64) Or(n uint64) uint64              { Point(pa); return x.v.Or(n) }
func (x *AUint64) CompareAndSwap(o, n uint64) bool { Point(pa); return x.v.CompareAndSwap(o, n) }

func ALoadUint64(a *uint64) uint64           { Point(pa); return atomic.LoadUint64(a) }
func AStoreUint64(a *uint64, n uint64)       { Point(pa); atomic.StoreUint64(a, n) }
func ASwapUint64(a *uint64, n uint64) uint64 { Point(pa); return atomic.SwapUint64(a, n) }
func AAddUint64(a *uint64, n uint64) uint64  { Point(pa); return atomic.AddUint64(a, n) }
func AAndUint64(a *uint64, n uint64) uint64  { Point(pa); return atomic.AndUint64(a, n) }
func AOrUint64(a *uint64, n uint64) uint64   { Point(pa); return atomic.OrUint64(a, n) }
func ACompareAndSwapUint64(a *uint64, o, n uint64) bool {
	Point(pa)
	return atomic.CompareAndSwapUint64(a, o, n)
}

type AUintptr struct{ v atomic.Uintptr }

func (x *AUintptr) Load() uintptr                    { Point(pa); return x.v.Load() }
func (x *AUintptr) Store(n uintptr)                  { Point(pa); x.v.Store(n) }
func (x *AUintptr) Swap(n uintptr) uintptr           { Point(pa); return x.v.Swap(n) }
func (x *AUintptr) Add(n uintptr) uintptr            { Point(pa); return x.v.Add(n) }
func (x *AUintptr) And(n uintptr) uintptr            { Point(pa); return x.v.And(n) }
func (x *AUintptr) Or(n uintptr) uintptr             { Point(pa); return x.v.Or(n) }
func (x *AUintptr) CompareAndSwap(o, n uintptr) bool { Point(pa); return x.v.CompareAndSwap(o, n) }

func ALoadUintptr(a *uintptr) uintptr            { Point(pa); return atomic.LoadUintptr(a) }
func AStoreUintptr(a *uintptr, n uintptr)        { Point(pa); atomic.StoreUintptr(a, n) }
func ASwapUintptr(a *uintptr, n uintptr) uintptr { Point(pa); return atomic.SwapUintptr(a, n) }
func AAddUintptr(a *uintptr, n uintptr) uintptr  { Point(pa); return atomic.AddUintptr(a, n) }
func AAndUintptr(a *uintptr, n uintptr) uintptr  { Point(pa); return atomic.AndUintptr(a, n) }
func AOrUintptr(a *uintptr, n uintptr) uintptr   { Point(pa); return atomic.OrUintptr(a, n) }
func ACompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	Point(pa)
	return atomic.CompareAndSwapUintptr(a, o, n)
}
