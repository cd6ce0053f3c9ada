#!/bin/bash
# iso.sh DIR CMD... : run CMD with private copies DIR/{repo,verif,vp} mounted over /repo, /verif, /opt/vp
d=$1; shift
exec unshare -m bash -c 'd=$0; mount --bind $d/repo /repo && mount --bind $d/verif /verif && mount --bind $d/vp /opt/vp && mkdir -p $d/tmpv && exec "$@"' $d "$@"
