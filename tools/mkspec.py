#!/usr/bin/env python3
"""Writes the small root modules/configurations (<X>_T.tla/.cfg: Seq trace validation)."""
import sys
for m in sys.argv[1:]:
    open("/verif/spec/%s_T.tla" % m, "w").write("---- MODULE %s_T ----\nEXTENDS %s, Seq\n====\n" % (m, m))
    open("/verif/spec/%s_T.cfg" % m, "w").write("SPECIFICATION SSpec\nCONSTANTS\n  S0 <- %sS0\n  Step <- %sStep\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n" % (m, m))
