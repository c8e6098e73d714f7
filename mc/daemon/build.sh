#!/bin/bash
# usage: build.sh REPO OUTDIR : the daemon under the virtual kernel, with and without sanitizers
set -e
here=$(dirname "$(readlink -f "$0")")
wraps=""
for f in socket bind listen setsockopt open open64 access fcntl fcntl64 accept accept4 select pselect poll ppoll read recv \
         recvfrom write send sendto sendmsg writev dprintf epoll_create epoll_create1 epoll_ctl epoll_wait ioctl \
         time clock_gettime gettimeofday sleep usleep nanosleep close shutdown exit _exit abort; do wraps="$wraps -Wl,--wrap=$f"; done
for kind in plain asan; do
    flags="-O1 -g -w -std=gnu11 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0"
    [ $kind = asan ] && flags="$flags -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
    gcc $flags -Dmain=daemon_main -c "$1/daemon/usbhid.c" -o "$2/daemon-$kind.o"
    gcc $flags -c "$here/vk.c" -o "$2/vk-$kind.o"
    gcc $flags $wraps "$2/daemon-$kind.o" "$2/vk-$kind.o" -o "$2/vk-$kind"
done
