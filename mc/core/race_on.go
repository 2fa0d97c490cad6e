//go:build race

package core

const raceBuild = true
