#!/bin/bash
# vxm.sh mod mod ..: verify some modules (of metrics::fzf unless @name)
A=""
for m in "$@"; do case $m in @*) A="$A --verify-module ${m#@}";; root) A="$A --verify-root";; *) A="$A --verify-module metrics::fzf::$m";; esac; done
/verif/vx.sh $A 2>&1 | grep -vE "^UNC|^   .*::|^note: verifying|snake_case|^warning: 1 warn|vx_retag_Cond|^  *= note: .#.warn|^ *\| *\^+ help: convert|^ *\|$" 
