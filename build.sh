#!/bin/sh
cd "$(dirname "$0")/engine" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o ../bin/vengine .
