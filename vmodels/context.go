package vmodels

import "context"

// CtxWithValue stands for context.WithValue (which needs reflection only to
// check its argument).
func CtxWithValue(parent context.Context, key, val any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	_ = key == key // panics for keys that cannot be compared
	return &ctxVal{parent, key, val}
}

type ctxVal struct {
	context.Context
	key, val any
}

func (c *ctxVal) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}
