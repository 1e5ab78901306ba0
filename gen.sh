#!/bin/bash
# regenerates harness/h/all.go from the harness functions
cd "$(dirname "$0")/harness/h" || exit 1
{ echo "// Code generated by gen.sh; DO NOT EDIT."; echo "package h"; echo; echo "var All = map[string]func(){"
grep -ohE '^func [PT][0-9]{2}_[A-Za-z0-9]+\(\)' *.go | sed -E 's/^func ([A-Za-z0-9_]+)\(\)/\t"\1": \1,/' | sort
echo "}"; } > all.go.tmp && mv all.go.tmp all.go && gofmt -w all.go
