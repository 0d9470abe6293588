#!/bin/bash
# Regenerates the table of harness functions of the native runner.
cd "$(dirname "$0")" || exit 3
{
	echo "// Code generated by genreg.sh. DO NOT EDIT."
	echo
	echo "package main"
	echo
	echo 'import "verif/harness/h"'
	echo
	echo "var funcs = map[string]func(){"
	grep -hoE '^func C[0-9]{2}_[A-Za-z0-9_]+\(\)' h/*.go | sed -E 's/^func ([A-Za-z0-9_]+)\(\)/\1/' | LC_ALL=C sort | while read -r f; do
		printf '\t"%s": h.%s,\n' "$f" "$f"
	done
	echo "}"
} | gofmt >runner/reg.go.tmp && if cmp -s runner/reg.go.tmp runner/reg.go; then /bin/rm -f runner/reg.go.tmp; else mv runner/reg.go.tmp runner/reg.go; fi
