#!/bin/sh
# development build
cd /verif/engine && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go build -o /tmp/engine .
