#!/bin/sh
# lastev.sh REPLAY : the events around the first unexplained one
m=$(sed -n 's/^# matched \([0-9]*\) of.*/\1/p' "$1")
grep '^# {' "$1" | sed -n "$((m > 0 ? m : 1)),$((m+1))p" | cut -c1-${2:-1200}
grep -v '^#' "$1" | head -1
