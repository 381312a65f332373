#!/bin/bash
# writes Trace_<X>.tla/.cfg from TraceLib.tla: the trace validator of specification
# module <X>.  (A plain copy rather than an INSTANCE: TLC evaluates the constant Traces
# once only if it is defined in the root module.)
for x in "$@"; do
  { echo "---- MODULE Trace_$x ----"
    echo "(* GENERATED by mktrace.sh from TraceLib.tla for module $x *)"
    echo "EXTENDS $x, Json, IOUtils"
    sed -n '/^Traces ==/,$p' TraceLib.tla
  } > Trace_$x.tla
  printf 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n' > Trace_$x.cfg
done
