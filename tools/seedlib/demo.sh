#!/bin/bash
# builds demo.c against the objects of the built /repo and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
inc=
for i in runtime runtime/base runtime/os runtime/lib runtime/json runtime/runtime \
	server server/user server/auth server/http server/client server/server \
	db db/row db/transaction db/storage db/object db/tier db/heap db/index db/part db/catalog db/wal; do
	inc="$inc -I/repo/amelie/$i"
done
obj=$(find /repo/_build/CMakeFiles/vp_scope.dir/repo/amelie -name '*.o')
clang -w -g -O1 -D_GNU_SOURCE $inc -I"$here" -o "$tmp/demo" "$here/demo.c" $obj \
	-lpthread -lssl -lcrypto -lpcre2-8 -lzstd -lm -ldl || exit 2
cd "$tmp" && timeout -k 5 120 ./demo > out 2>&1 < /dev/null
rc=$?
tail -n 20 out
exit $rc
