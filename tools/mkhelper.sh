#!/bin/bash
# mkhelper.sh DIR PACKAGE: writes replay/DIR/helper_test.go (the vrun case collector) for another package
mkdir -p /verif/replay/$1
python3 - "$1" "$2" <<'P'
import sys
s=open('/verif/replay/root/helper_test.go').read()
s=s[:s.index('func vnums(')]
s=s.replace('package xdb_test','package '+sys.argv[2],1).replace('\t"math/big"\n','').replace('\n\t"github.com/effective-security/xdb"\n','\n')
open('/verif/replay/%s/helper_test.go'%sys.argv[1],'w').write(s)
P
gofmt -l /verif/replay/$1
