# toolchain: the one the repository's own build uses
for d in /opt/veriftools/go1.24.13 /opt/veriftools/go1.24; do
  if [ -x "$d/bin/go" ]; then export PATH="$d/bin:$PATH"; break; fi
done
unset GOROOT GOWORK
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
