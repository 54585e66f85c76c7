package ht

// T shares its name, its kind and its String() with the T of the other package ht.
type T int64
