// Package checks is the package of the same name, built as a library: check.py
// overlays its files here.
package checks
