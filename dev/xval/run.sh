#!/bin/bash
# usage: run.sh MODE N SEED LEN   (development only)
set -e
D=$(mktemp -d); . /opt/vp/env.sh; cd /verif/dev/xval
go build -o $D/xval . ; $D/xval -mode $1 -n $2 -s $3 -l ${4:-14} > $D/recs.ndjson
cp XVal.tla XVal.cfg ../../spec/*.tla $D; cd $D
time java -Xss256m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -config XVal.cfg XVal.tla > out.txt 2>&1 || true
tail -5 out.txt; grep -c BAD out.txt; cp out.txt /tmp/xval.out; cp recs.ndjson /tmp/xval.ndjson; rm -r $D
