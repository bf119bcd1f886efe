"""A stand-in tool chain: records its command lines and makes its outputs."""
import os

TOOL = r'''#!/bin/sh
# one line per argument, an empty line between calls
me=$(basename "$0")
log="@LOG@/$$"
{ printf 'tool %s\n' "$me"; for a in "$@"; do printf 'arg %s\n' "$a"; done; printf 'end\n'; } > "$log"
case "$1" in
-MM)
  src=$2
  printf '%s: %s\n' "$(basename "$src").o" "$src"
  exit 0;;
rcs)
  out=$2; shift 2
  cat "$@" > "$out" || exit 1
  exit 0;;
esac
out=; prev=; comp=; srcs=
for a in "$@"; do
  case "$a" in
  -c) comp=1;;
  esac
  [ "$prev" = -o ] && out=$a
  [ "$prev" = -c ] && src=$a
  prev=$a
done
if [ -n "$comp" ]; then
  [ -f "$src" ] || exit 1
  printf 'object of %s\n' "$src" > "$out"
else
  : > "$out"
  for a in "$@"; do
    case "$a" in
    -*) ;;
    *) [ "$a" = "$out" ] || [ ! -f "$a" ] || cat "$a" >> "$out";;
    esac
  done
fi
'''


def make(d):
    """Tools in d/bin, records in d/calls."""
    b, c = os.path.join(d, "bin"), os.path.join(d, "calls")
    os.makedirs(b); os.makedirs(c)
    for t in ("gcc", "g++", "ar", "ld", "objcopy", "objdump"):
        p = os.path.join(b, t)
        with open(p, "w") as f:
            f.write(TOOL.replace("@LOG@", c))
        os.chmod(p, 0o755)
    return b + "/", c


def calls(c):
    """All recorded calls: [tool, args]; they are removed."""
    out = []
    for f in sorted(os.listdir(c)):
        with open(os.path.join(c, f), errors="replace") as fh:
            tool, args = None, []
            for ln in fh.read().split("\n"):
                if ln.startswith("tool "):
                    tool, args = ln[5:], []
                elif ln.startswith("arg "):
                    args.append(ln[4:])
                elif ln == "end":
                    out.append([tool, args])
        os.unlink(os.path.join(c, f))
    return out
