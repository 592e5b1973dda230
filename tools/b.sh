#!/bin/sh
cd /verif/govc && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o ../bin/govc .
