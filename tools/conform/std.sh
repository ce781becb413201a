#!/bin/bash
# The rewriter on the standard library: every package that builds outside it is
# rewritten and has to build; those of the list have to pass their own tests.
# (Packages whose tests start goroutines of their own or read the clock or log
# output natively are not in the list: the runtime works inside an exploration.)
set -u
here="$(cd "$(dirname "$0")" && pwd)"; v="$(dirname "$(dirname "$here")")"
D="$(mktemp -d /tmp/conform.XXXXXX)"; trap 'rm -rf "$D"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off D v
G="$(go env GOROOT)/src"; export G
( cd "$v/tools/instr" && go build -o "$D/instr" . ) || exit 3
one() {
  p=$1; d=$D/w_$(echo "$p" | tr / _); mkdir -p "$d/s"
  files() { (cd "$G" && go list -f "{{range .$1}}{{.}} {{end}}" "./$p"); }
  for f in $(files GoFiles); do cp "$G/$p/$f" "$d/s/"; done
  printf 'module x\n\ngo 1.27\n' > "$d/s/go.mod"
  (cd "$d/s" && go build . >/dev/null 2>&1) || { rm -rf "$d"; return; }
  r=FAIL; "$D/instr" -src "$d/s" -rt "$v/rt/vrt" -out "$d/m" >/dev/null 2>&1 && (cd "$d/m" && go build ./... >/dev/null 2>&1) && r=OK
  echo "build $p $r"
  case " $TESTED " in *" $p "*) ;; *) rm -rf "$d"; return;; esac
  cp -r "$G/$p/testdata" "$d/m/" 2>/dev/null
  for f in $(files TestGoFiles) $(files XTestGoFiles); do
    sed "s#^\(\s*\)\([a-z. ]*\)\"$p\"#\1\2\"ustack\"#; s#^import \([a-z. ]*\)\"$p\"#import \1\"ustack\"#" "$G/$p/$f" > "$d/m/$f"; done
  r=FAIL; (cd "$d/m" && timeout 200 go test -short -vet=off . >/dev/null 2>&1) && r=OK
  echo "test $p $r"; rm -rf "$d"
}
export -f one
export TESTED="cmp container/heap container/ring container/list encoding/ascii85 encoding/base32 encoding/hex encoding/csv encoding/pem go/build/constraint encoding/xml go/constant go/format go/scanner image/color html index/suffixarray image/png math/cmplx mime/quotedprintable net/mail testing/quick regexp/syntax text/scanner text/tabwriter text/template/parse unicode/utf8"
(cd "$G" && go list ./... | grep -v 'internal\|vendor\|^cmd\|runtime\|syscall\|^unsafe\|crypto\|^maps$\|tzdata') | xargs -P "${J:-4}" -I{} bash -c 'one {}' > "$D/log"
grep FAIL "$D/log"
echo "$(grep -c '^build.*OK' "$D/log") packages rewritten and built, $(grep -c '^test.*OK' "$D/log") pass their tests, $(grep -c FAIL "$D/log") failures"
! grep -q FAIL "$D/log"
