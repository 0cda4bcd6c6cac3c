#!/bin/bash
# seed ID: copies the demonstration frame
d=/verif/seeded/$1; mkdir -p $d; cp /verif/tools/demo/demo.sh /verif/tools/demo/toy.hpp $d/; cat > $d/demo.cpp
