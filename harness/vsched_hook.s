//go:build vsched
