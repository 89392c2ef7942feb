// Package models holds Go stand-ins that the engine runs instead of assembly, reflection or formatting code.
package models

import (
	"errors"
	"sync"

	"vharness/verif"
)

// IndexByte finds c in b.
//
//verif:replace internal/bytealg.IndexByte bytes.IndexByte
func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

// IndexByteString finds c in s.
//
//verif:replace internal/bytealg.IndexByteString strings.IndexByte internal/stringslite.IndexByte
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

// LastIndexByte finds the last c in b.
//
//verif:replace internal/bytealg.LastIndexByte bytes.LastIndexByte
func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

// LastIndexByteString finds the last c in s.
//
//verif:replace internal/bytealg.LastIndexByteString strings.LastIndexByte
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

// CompareString orders strings.
//
//verif:replace internal/bytealg.CompareString strings.Compare
func CompareString(a, b string) int {
	if verif.EqStr(a, b) {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

// Count counts c in b.
//
//verif:replace internal/bytealg.Count
func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

// CountString counts c in s.
//
//verif:replace internal/bytealg.CountString
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

// Equal compares byte slices.
//
//verif:replace bytes.Equal internal/bytealg.Equal
func Equal(a, b []byte) bool { return verif.EqBytes(a, b) }

// Compare orders byte slices.
//
//verif:replace internal/bytealg.Compare bytes.Compare
func Compare(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

// Index finds sep in s.
//
//verif:replace strings.Index internal/stringslite.Index
func Index(s, sep string) int {
	n := len(sep)
	for i := 0; i+n <= len(s); i++ {
		if verif.EqStr(s[i:i+n], sep) {
			return i
		}
	}
	return -1
}

// IndexBytes finds sep in s.
//
//verif:replace bytes.Index
func IndexBytes(s, sep []byte) int {
	n := len(sep)
	for i := 0; i+n <= len(s); i++ {
		if verif.EqBytes(s[i:i+n], sep) {
			return i
		}
	}
	return -1
}

// As is errors.As.
//
//verif:replace errors.As
func As(err error, target any) bool {
	for err != nil {
		if verif.AssignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if As(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// Is is errors.Is.
//
//verif:replace errors.Is
func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	comparable := verif.Comparable(target)
	for err != nil {
		if comparable && verif.Comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// Dump is encoding/hex.Dump: its text does not matter to any property.
//
//verif:replace encoding/hex.Dump
func Dump(b []byte) string { return "" }

var _ = errors.New

// OnceDo runs f the first time.
//
//verif:replace (*sync.Once).Do
func OnceDo(o *sync.Once, f func()) {
	if !verif.OnceEnter(o) {
		return
	}
	defer verif.OnceLeave(o)
	f()
}

// WaitGroupGo runs f in a goroutine of the group.
//
//verif:replace (*sync.WaitGroup).Go
func WaitGroupGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

// SortSlice is sort.Slice, by insertion.
//
//verif:replace sort.Slice sort.SliceStable
func SortSlice(x any, less func(i, j int) bool) {
	n := verif.SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			verif.SliceSwap(x, j, j-1)
		}
	}
}
