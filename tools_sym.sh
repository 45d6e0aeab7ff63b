#!/bin/bash
# usage: tools_sym.sh exe replayfile : prints the recorded backtrace with symbols
grep '^# bt' "$2" | awk '{print "0x"$3}' | xargs addr2line -Cfpe "$1" 
