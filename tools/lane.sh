#!/bin/bash
# lane.sh N cmd...: runs cmd in a private mount namespace in which /repo, /verif and /tmp are copies (under /var/tmp/lane/N),
# so that planted bugs can be tried while something else uses the real ones. "lane.sh N --sync" refreshes the copies. For development only.
n=$1; shift; d=/var/tmp/lane/$n
if [ ! -d "$d/verif" ] || [ "$1" = --sync ]; then
  mkdir -p "$d/tmp"; chmod 1777 "$d/tmp"
  for x in repo verif; do mkdir -p "$d/$x"; rsync -a --delete "/$x/" "$d/$x/" 2>/dev/null || { rm -rf "/var/tmp/lane/$n/$x"; cp -a "/$x" "$d/$x"; }; done
  cp -a /tmp/b*.py "$d/tmp/" 2>/dev/null
  [ "$1" = --sync ] && exit 0
fi
exec unshare -Urm bash -c 'd=$1; shift; mount --bind $d/repo /repo && mount --bind $d/verif /verif && mount --bind $d/tmp /tmp && cd /verif && exec "$@"' lane "$d" "$@"
