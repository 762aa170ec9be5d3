package spec

import (
	"reflect"

	"pgregory.net/rapid"
)

// Types that are printed alike, have the same package path and name, and are different.

func twinA() []any {
	type Point struct{ X, Y int }
	type Item struct {
		Name string `sereal:"name"`
		Id   int    `sereal:"id"`
	}
	type Tree struct {
		V     int
		Left  *Tree
		Right *Tree
	}
	type None struct{}
	return []any{Point{}, Item{}, Tree{}, None{}}
}

func twinB() []any {
	type Point struct {
		Y int
		X int `sereal:"Z"`
	}
	type Item struct {
		Id   int    `sereal:"name"`
		Name string `sereal:"id"`
	}
	type Tree struct {
		Left, Right *Tree
		V           string `sereal:"v"`
	}
	type None struct{ A, X, Y, Name string }
	return []any{Point{}, Item{}, Tree{}, None{}}
}

func twinC() []any {
	type Point struct {
		X [2]int
		Z string `sereal:"Y"`
		y int
		W interface{}
	}
	type Item struct {
		Name string `sereal:"-"`
		Id   string
		Rest map[string]interface{} `sereal:"name"`
	}
	type Tree struct {
		Kids []Tree `sereal:"Left"`
		V    float64
	}
	type None struct {
		X int `sereal:"-"`
	}
	_ = Point{}.y
	return []any{Point{}, Item{}, Tree{}, None{}}
}

var twins = [][]any{twinA(), twinB(), twinC()}

// Twin draws one of the types; those of the same family are printed alike.
func Twin(t *rapid.T, family int) reflect.Type {
	return reflect.TypeOf(twins[N(t, 0, len(twins)-1)][family])
}

// TwinFamilies is the number of families.
var TwinFamilies = len(twins[0])
