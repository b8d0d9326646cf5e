// Package gen has the name of another one, and a type of the same name.
package gen

type Point struct{ X, Y int32 }
