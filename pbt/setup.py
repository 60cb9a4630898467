#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and warms the build (every check can also build for itself)."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
for t in ('g++', 'ninja', 'protoc', 'node', '/opt/vp/cmake322/bin/cmake'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
ok, why = B.build('asan', ['h_wire', 'h_obj', 'h_types', 'h_grpc', 'h_native', 'h_reg', 'h_thr', 'h_qml', 'vp_gen'], timeout=1500)
if not ok:
    sys.exit(why)
