#!/bin/bash
# vxf.sh module function: verify one function
M=$1; case $M in @*) M=${M#@};; root) ;; *) M=metrics::fzf::$M;; esac
/verif/vx.sh --verify-only-module $M --verify-function "$2" 2>&1 | grep -vE "^UNC|^   .*::|^note: verifying|snake_case|^warning: 1 warn|vx_retag_Cond|^  *= note: .#.warn|^ *\| *\^+ help: convert|^ *\|$"
