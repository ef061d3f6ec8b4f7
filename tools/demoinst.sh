#!/bin/bash
# demoinst.sh 'C++ expression/body using p,a_init,a_final; must return 0/1' < case text
{ echo '#include "build_inst.h"'; echo 'using namespace vf;'; echo 'int main() {'; python3 /tmp/w/inst2cpp.py; echo "$1"; echo '}'; } > /tmp/w/demo.cpp
