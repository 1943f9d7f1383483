#!/bin/bash
# Nothing needs preparing: every check builds itself from /repo. Warm the Go build cache so that the checks' builds are quick.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go version >/dev/null || exit 1
exit 0
